// Appended to the generated copy of the crate (never to /repo). A harness body is written once over `Src`:
// Kani runs it with symbolic values (a proof over the whole domain when it is loop-free), the native runner
// runs the same body with random values, and a counterexample or a recorded failure is replayed through it.
#![allow(dead_code)]

pub trait Src {
    fn raw(&mut self, bytes: usize) -> Vec<u8> { let _ = bytes; Vec::new() }
    fn u8(&mut self) -> u8;
    fn bool(&mut self) -> bool;
    fn u32(&mut self) -> u32;
    fn i32(&mut self) -> i32;
    fn u64(&mut self) -> u64;
    fn i64(&mut self) -> i64;
    fn usize(&mut self) -> usize;
    fn f64(&mut self) -> f64;
    // lo..=hi
    fn i32_in(&mut self, lo: i32, hi: i32) -> i32;
    fn usize_in(&mut self, lo: usize, hi: usize) -> usize;
    // value by name, for the failure report
    fn note(&mut self, name: &str, v: &dyn std::fmt::Debug);
    fn assume(&mut self, c: bool);
    // native only: cheap yes/no with probability 1/n
    fn one_in(&mut self, n: u32) -> bool { let _ = n; self.bool() }
}

#[macro_export]
macro_rules! vp_check {
    ($c:expr, $($m:tt)*) => {
        #[cfg(kani)]
        { kani::assert($c, concat!("contract: ", $($m)*)); }
        #[cfg(not(kani))]
        { if !($c) { panic!(concat!("contract: ", $($m)*)); } }
    };
}

#[cfg(kani)]
pub struct KaniSrc;
#[cfg(kani)]
impl Src for KaniSrc {
    fn u8(&mut self) -> u8 { kani::any() }
    fn bool(&mut self) -> bool { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn i32(&mut self) -> i32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn i64(&mut self) -> i64 { kani::any() }
    fn usize(&mut self) -> usize { kani::any() }
    fn f64(&mut self) -> f64 { kani::any() }
    fn i32_in(&mut self, lo: i32, hi: i32) -> i32 { let v: i32 = kani::any(); kani::assume(lo <= v && v <= hi); v }
    fn usize_in(&mut self, lo: usize, hi: usize) -> usize { let v: usize = kani::any(); kani::assume(lo <= v && v <= hi); v }
    fn note(&mut self, _: &str, _: &dyn std::fmt::Debug) {}
    fn assume(&mut self, c: bool) { kani::assume(c); }
}

#[macro_export]
macro_rules! vp_proof {
    ($name:ident, $body:path) => {
        #[cfg(kani)]
        #[kani::proof]
        pub fn $name() { let mut s = $crate::vp_util::KaniSrc; $body(&mut s); kani::cover!(true, "vp reached"); }
    };
    ($name:ident, $body:path, unwind $n:literal) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($n)]
        pub fn $name() { let mut s = $crate::vp_util::KaniSrc; $body(&mut s); kani::cover!(true, "vp reached"); }
    };
}

#[cfg(not(kani))]
pub mod native {
    use super::Src;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::time::{Duration, Instant};

    pub struct Rejected;

    pub struct Native {
        state: u64,
        fixed: Option<Vec<Vec<u8>>>,
        pub draws: Vec<Vec<u8>>,
        pub notes: Vec<(String, String)>,
        pool: Vec<i64>,
        mode: u64,
        pos: usize,
        pub record: bool,
        pub trace: bool,
    }

    impl Native {
        pub fn random(seed: u64) -> Self {
            let mut s = Self { state: seed, fixed: None, draws: vec![], notes: vec![], pool: vec![], mode: 0, pos: 0, record: false, trace: false };
            s.mode = s.next();
            s
        }
        pub fn fixed(vals: Vec<Vec<u8>>) -> Self {
            Self { state: 0, fixed: Some(vals), draws: vec![], notes: vec![], pool: vec![], mode: 0, pos: 0, record: true, trace: false }
        }
        fn next(&mut self) -> u64 {
            self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = self.state;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        }
        fn get<const N: usize>(&mut self, v: [u8; N]) -> [u8; N] {
            let mut v = v;
            if let Some(f) = &self.fixed {
                v = [0; N];
                if let Some(b) = f.get(self.pos) {
                    for i in 0..N.min(b.len()) { v[i] = b[i]; }
                }
                self.pos += 1;
            }
            if self.record { self.draws.push(v.to_vec()); }
            v
        }
        fn int(&mut self, bits: u32, signed: bool) -> i128 {
            let max: i128 = if signed { (1i128 << (bits - 1)) - 1 } else { (1i128 << bits) - 1 };
            let min: i128 = if signed { -(1i128 << (bits - 1)) } else { 0 };
            let r = self.next();
            let v: i128 = match r % 8 {
                0 | 1 => ((r >> 8) % 7) as i128 - if signed { 3 } else { 0 },
                2 => ((r >> 8) % 2001) as i128 - if signed { 1000 } else { 0 },
                3 => { let k = (r >> 8) % bits as u64; let e = (r >> 20) % 3; (1i128 << k) + e as i128 - 1 }
                4 => { let k = (r >> 8) % bits as u64; let e = (r >> 20) % 3; if signed { -(1i128 << k) + e as i128 - 1 } else { max - (1i128 << k) + e as i128 } }
                5 => if (r >> 8) & 1 == 0 { max - ((r >> 9) % 3) as i128 } else { min + ((r >> 9) % 3) as i128 },
                6 if !self.pool.is_empty() => { let i = (r >> 8) as usize % self.pool.len(); self.pool[i] as i128 + ((r >> 40) % 3) as i128 - 1 }
                _ => (self.next() as i128) & max,
            };
            let v = v.clamp(min, max);
            self.pool.push(v as i64);
            if self.pool.len() > 16 { self.pool.remove(0); }
            v
        }
    }

    impl Src for Native {
        fn u8(&mut self) -> u8 { let v = self.next() as u8; u8::from_le_bytes(self.get(v.to_le_bytes())) }
        fn bool(&mut self) -> bool { let v = (self.next() >> 17) as u8 & 1; self.get([v])[0] & 1 != 0 }
        fn u32(&mut self) -> u32 { let v = self.int(32, false) as u32; u32::from_le_bytes(self.get(v.to_le_bytes())) }
        fn i32(&mut self) -> i32 { let v = self.int(32, true) as i32; i32::from_le_bytes(self.get(v.to_le_bytes())) }
        fn u64(&mut self) -> u64 { let v = self.int(64, false) as u64; u64::from_le_bytes(self.get(v.to_le_bytes())) }
        fn i64(&mut self) -> i64 { let v = self.int(64, true) as i64; i64::from_le_bytes(self.get(v.to_le_bytes())) }
        fn usize(&mut self) -> usize { let v = self.int(64, false) as u64; u64::from_le_bytes(self.get(v.to_le_bytes())) as usize }
        fn f64(&mut self) -> f64 {
            let r = self.next();
            let v = match r % 8 {
                0 => 0.0,
                1 => f64::from_bits(self.next()),
                2 => [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, f64::MIN_POSITIVE, f64::MAX][(r >> 8) as usize % 6],
                3 => ((r >> 8) % 21) as f64 - 10.0,
                4 => (((r >> 8) % 2000001) as f64 - 1000000.0) / 997.0,
                _ => (((r >> 8) % 2000001) as f64 - 1000000.0) / 200000.0,
            };
            f64::from_bits(u64::from_le_bytes(self.get(v.to_bits().to_le_bytes())))
        }
        fn i32_in(&mut self, lo: i32, hi: i32) -> i32 {
            let n = (hi as i64 - lo as i64) as u64 + 1;
            let r = self.next();
            let v = if n <= 64 { lo as i64 + (r % n) as i64 } else {
                match r % 6 {
                    0 => lo as i64 + ((r >> 8) % 4) as i64,
                    1 => hi as i64 - ((r >> 8) % 4) as i64,
                    2 => { let mid = if lo <= 0 && hi >= 0 { 0 } else { (lo as i64 + hi as i64) / 2 }; mid + ((r >> 8) % 9) as i64 - 4 }
                    3 if !self.pool.is_empty() => { let i = (r >> 8) as usize % self.pool.len(); self.pool[i].saturating_add(((r >> 40) % 3) as i64).saturating_sub(1) }
                    _ => lo as i64 + (self.next() % n) as i64,
                }
            };
            let v = v.clamp(lo as i64, hi as i64) as i32;
            self.pool.push(v as i64);
            if self.pool.len() > 16 { self.pool.remove(0); }
            let v = i32::from_le_bytes(self.get(v.to_le_bytes()));
            self.assume(lo <= v && v <= hi);
            v
        }
        fn usize_in(&mut self, lo: usize, hi: usize) -> usize {
            let n = (hi - lo) as u64;
            let v = if n == u64::MAX { self.next() } else { lo as u64 + self.next() % (n + 1) };
            let v = u64::from_le_bytes(self.get(v.to_le_bytes())) as usize;
            self.assume(lo <= v && v <= hi);
            v
        }
        fn note(&mut self, name: &str, v: &dyn std::fmt::Debug) {
            if self.trace { println!("VPNOTE {} = {:?}", name, v); }
            if self.record { self.notes.push((name.to_string(), format!("{:?}", v))); }
        }
        fn assume(&mut self, c: bool) { if !c { std::panic::resume_unwind(Box::new(Rejected)); } }
        fn one_in(&mut self, n: u32) -> bool { let v = (self.next() % n as u64 == 0) as u8; self.get([v])[0] & 1 != 0 }
    }

    pub struct Case { pub name: &'static str, pub body: fn(&mut Native), pub weight: u32 }

    pub enum Outcome { Ok, Rejected, Failed(String) }

    use std::sync::atomic::{AtomicU64, Ordering};
    static CUR_SEED: AtomicU64 = AtomicU64::new(0);
    static CUR_CASE: AtomicU64 = AtomicU64::new(0);
    static CUR_START: AtomicU64 = AtomicU64::new(0);

    fn watchdog(names: Vec<&'static str>, t0: Instant) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let st = CUR_START.load(Ordering::SeqCst);
            if st != 0 && t0.elapsed().as_millis() as u64 > st + 20_000 {
                println!("VPFAIL {{\"case\": \"{}\", \"seed\": {}, \"message\": \"does not finish within 20 s\", \"input\": {{}}, \"draws\": []}}",
                    names[CUR_CASE.load(Ordering::SeqCst) as usize], CUR_SEED.load(Ordering::SeqCst));
                std::process::exit(1);
            }
        });
    }

    pub fn run_one(c: &Case, s: &mut Native) -> Outcome {
        match catch_unwind(AssertUnwindSafe(|| (c.body)(s))) {
            Ok(()) => Outcome::Ok,
            Err(e) => {
                if e.is::<Rejected>() { return Outcome::Rejected; }
                let m = if let Some(m) = e.downcast_ref::<&str>() { m.to_string() } else if let Some(m) = e.downcast_ref::<String>() { m.clone() } else { "panic".to_string() };
                Outcome::Failed(m)
            }
        }
    }

    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push(' '), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
        o
    }
    fn report(c: &Case, seed: Option<u64>, s: &Native, msg: &str) {
        let notes: Vec<String> = s.notes.iter().map(|(k, v)| format!("\"{}\": \"{}\"", esc(k), esc(v))).collect();
        let draws: Vec<String> = s.draws.iter().map(|b| format!("\"{}\"", b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect();
        println!("VPFAIL {{\"case\": \"{}\", \"seed\": {}, \"message\": \"{}\", \"input\": {{{}}}, \"draws\": [{}]}}",
            c.name, seed.map(|x| x.to_string()).unwrap_or("null".into()), esc(msg), notes.join(", "), draws.join(", "));
    }

    pub fn main(cases: &[Case]) {
        std::panic::set_hook(Box::new(|_| {}));
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
        if let Some(name) = get("--case") {
            // replay recorded draws
            let vals: Vec<Vec<u8>> = get("--draws").unwrap_or_default().split(',').filter(|x| !x.is_empty())
                .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
            let c = cases.iter().find(|c| c.name == name).expect("unknown case");
            let mut s = Native::fixed(vals);
            match run_one(c, &mut s) {
                Outcome::Ok => println!("VPOK replay"),
                Outcome::Rejected => println!("VPREJECTED replay"),
                Outcome::Failed(m) => { report(c, None, &s, &m); std::process::exit(1) }
            }
            return;
        }
        let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let ms: u64 = get("--ms").and_then(|s| s.parse().ok()).unwrap_or(2000);
        let only = get("--only");
        let trace = args.iter().any(|a| a == "--trace");
        let t0 = Instant::now();
        watchdog(cases.iter().map(|c| c.name).collect(), t0);
        if let (Some(one), Some(sd)) = (&only, get("--one-seed").and_then(|s| s.parse::<u64>().ok())) {
            let (ci, c) = cases.iter().enumerate().find(|(_, c)| c.name == one).expect("unknown case");
            CUR_CASE.store(ci as u64, Ordering::SeqCst);
            CUR_SEED.store(sd, Ordering::SeqCst);
            CUR_START.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
            let mut s = Native::random(sd);
            s.record = true;
            s.trace = trace;
            match run_one(c, &mut s) {
                Outcome::Ok => println!("VPOK replay"),
                Outcome::Rejected => println!("VPREJECTED replay"),
                Outcome::Failed(m) => { report(c, Some(sd), &s, &m); std::process::exit(1) }
            }
            return;
        }
        let mut bad = false;
        for (ci, c) in cases.iter().enumerate() {
            if let Some(o) = &only { if !o.split(',').any(|x| x == c.name) { continue; } }
            let end = Instant::now() + Duration::from_millis(ms * c.weight as u64);
            let (mut n, mut rej) = (0u64, 0u64);
            let mut first_sample = None;
            let mut failed = false;
            let mut known = 0u64;
            while Instant::now() < end && !failed {
                for _ in 0..16 {
                    let sd = seed.wrapping_mul(0x1000_0000_01B3).wrapping_add((ci as u64) << 48).wrapping_add(n + rej);
                    CUR_CASE.store(ci as u64, Ordering::SeqCst);
                    CUR_SEED.store(sd, Ordering::SeqCst);
                    CUR_START.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    if trace { println!("VPTRACE {} {}", c.name, sd); }
                    let mut s = Native::random(sd);
                    if first_sample.is_none() { s.record = true; }
                    match run_one(c, &mut s) {
                        Outcome::Ok => { n += 1; if s.record { first_sample = Some(s.notes.clone()); } }
                        Outcome::Rejected => rej += 1,
                        Outcome::Failed(m) => {
                            if m.starts_with("known:") { known += 1; n += 1; if known == 1 {
                                let mut s = Native::random(sd); s.record = true; let _ = run_one(c, &mut s);
                                println!("VPKNOWN {} {} {:?}", c.name, m, s.notes);
                            } continue; }
                            // again, recording
                            let mut s = Native::random(sd);
                            s.record = true;
                            let m2 = match run_one(c, &mut s) { Outcome::Failed(m) => m, _ => format!("not deterministic: {}", m) };
                            report(c, Some(sd), &s, &m2);
                            failed = true; bad = true;
                            break;
                        }
                    }
                }
                if n == 0 && rej > 2_000_000 { break; }
            }
            let smp = first_sample.map(|x| x.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join("; ")).unwrap_or_default();
            println!("VPCASE {{\"case\": \"{}\", \"runs\": {}, \"rejected\": {}, \"known\": {}, \"sample\": \"{}\"}}", c.name, n, rej, known, esc(&smp.chars().take(400).collect::<String>()));
        }
        if bad { std::process::exit(1); }
    }
}
