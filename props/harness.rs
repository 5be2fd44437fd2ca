//! Runs property bodies on concrete inputs against the real crates.
//!   replay search <prefix> <seed> <seconds>   search every body of a property for a failing input
//!   replay one <body> <inputs>                replay one recorded input (comma-separated hex)
//!   replay list
//! Each line of output is one JSON object.
use crate::src;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// Concrete inputs: recorded ones, then generated ones biased towards boundary values.
pub struct Rec {
    rng: u64,
    replay: Vec<Vec<u8>>,
    replaying: bool,
    log: Vec<Vec<u8>>,
    discarded: bool,
    recent: Vec<u64>,
}
impl Rec {
    fn new(rng: u64, replay: Option<Vec<Vec<u8>>>) -> Self {
        let replaying = replay.is_some();
        let replay = replay.unwrap_or_default();
        Rec { rng: rng | 1, replay, replaying, log: vec![], discarded: false, recent: vec![] }
    }
    fn next(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn gen(&mut self, bits: u32) -> u64 {
        let r = self.next();
        let x = self.next();
        let v = match r % 12 {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1u64 << (bits - 1),
            4 => (1u64 << (bits - 1)).wrapping_sub(1),
            5 => (1u64 << (x % bits as u64)).wrapping_add((x >> 8) % 3).wrapping_sub(1),
            6 => x % 8,
            7 => (x % 8).wrapping_neg(),
            8 => x % 4096,
            9 | 10 if !self.recent.is_empty() => {
                let v = self.recent[x as usize % self.recent.len()];
                if r & 0x1000 == 0 { v } else { v.wrapping_add((x >> 32) % 3).wrapping_sub(1) }
            }
            _ => x,
        };
        self.recent.push(v);
        if self.recent.len() > 16 {
            self.recent.remove(0);
        }
        v
    }
    fn raw<const N: usize>(&mut self, gen: impl FnOnce(&mut Self) -> [u8; N]) -> [u8; N] {
        let b = if self.replaying {
            let mut b = [0; N];
            if self.log.len() < self.replay.len() {
                for (d, s) in b.iter_mut().zip(&self.replay[self.log.len()]) {
                    *d = *s;
                }
            }
            b
        } else {
            gen(self)
        };
        self.log.push(b.to_vec());
        b
    }
}
macro_rules! ints { ($($t:ident)*) => { $(fn $t(&mut self) -> $t {
    $t::from_le_bytes(self.raw(|s| (s.gen($t::BITS) as $t).to_le_bytes()))
})* } }
impl src::Src for Rec {
    ints!(u8 u16 u32 u64 i8 i16 i32 i64 usize);
    fn bool(&mut self) -> bool {
        self.raw(|s| [(s.next() & 1) as u8])[0] & 1 == 1
    }
    fn f32(&mut self) -> f32 {
        f32::from_le_bytes(self.raw(|s| {
            let (r, x) = (s.next(), s.next());
            (match r % 10 {
                0 => 0.0,
                1 => -0.0,
                2 => 1.0,
                3 => f32::NAN,
                4 => f32::INFINITY,
                5 => (x % 100) as f32 / 4.0,
                6 | 7 => (x % 1_000_001) as f32 / 1_000_000.0,
                8 => -((x % 1000) as f32),
                _ => f32::from_bits(x as u32),
            })
            .to_le_bytes()
        }))
    }
    fn f64(&mut self) -> f64 {
        f64::from_le_bytes(self.raw(|s| {
            let (r, x) = (s.next(), s.next());
            (match r % 10 {
                0 => 0.0,
                1 => -0.0,
                2 => 1.0,
                3 => f64::NAN,
                4 => f64::NEG_INFINITY,
                5 => (x % 100) as f64 / 4.0,
                6 | 7 => (x % 1_000_001) as f64 / 1_000_000.0,
                8 => -((x % 1000) as f64),
                _ => f64::from_bits(x),
            })
            .to_le_bytes()
        }))
    }
    fn assume(&mut self, c: bool) -> bool {
        self.discarded |= !c;
        c
    }
    fn below(&mut self, n: u32) -> u32 {
        let v = u32::from_le_bytes(self.raw(|s| ((s.next() % n as u64) as u32).to_le_bytes()));
        if v >= n {
            self.discarded = true;
        }
        v % n
    }
}

pub type Body = fn(&mut Rec);
thread_local!(static LAST: RefCell<String> = RefCell::new(String::new()));

fn esc(s: &str) -> String {
    s.chars().flat_map(|c| match c {
        '"' => vec!['\\', '"'],
        '\\' => vec!['\\', '\\'],
        c if (c as u32) < 32 => vec![' '],
        c => vec![c],
    }).collect()
}
fn hex(log: &[Vec<u8>]) -> String {
    log.iter().map(|v| v.iter().map(|b| format!("{:02x}", b)).collect::<String>()).collect::<Vec<_>>().join(",")
}
/// `Some(message)` if the body fails on the inputs of `rec`.
fn run(body: Body, rec: &mut Rec) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| body(rec))) {
        Ok(()) => None,
        Err(_) => Some(LAST.with(|l| l.borrow().clone())),
    }
}

pub fn run_main(bodies: &[(&str, Body)]) {
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!(" [{}:{}]", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = m + &at);
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => bodies.iter().for_each(|b| println!("{}", b.0)),
        Some("one") => {
            let body = bodies.iter().find(|b| b.0 == args[2]).expect("no such body");
            let inputs = args.get(3).map(|s| s.as_str()).unwrap_or("").split(',').filter(|s| !s.is_empty())
                .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())
                .collect();
            let mut rec = Rec::new(1, Some(inputs));
            let r = run(body.1, &mut rec);
            println!("{{\"body\":\"{}\",\"discarded\":{},\"fails\":{},\"message\":\"{}\"}}",
                body.0, rec.discarded, r.is_some(), esc(&r.clone().unwrap_or_default()));
            std::process::exit(r.is_some() as i32);
        }
        Some("search") => {
            let picked: Vec<_> = args[2].split('+').flat_map(|p| bodies.iter().filter(move |b| b.0.starts_with(p))).collect();
            let seed: u64 = args[3].parse().unwrap();
            let secs: f64 = args[4].parse().unwrap();
            let each = Duration::from_secs_f64(secs / picked.len().max(1) as f64);
            for b in picked {
                eprintln!("begin {}", b.0);
                let (mut runs, mut kept, start) = (0u64, 0u64, Instant::now());
                let mut fail: Option<(Vec<Vec<u8>>, String, u64)> = None;
                let mut after = 0;
                while start.elapsed() < each {
                    let mut rec = Rec::new((seed << 40) ^ (runs << 1), None);
                    let r = run(b.1, &mut rec);
                    runs += 1;
                    kept += !rec.discarded as u64;
                    if let Some(m) = r {
                        // keep the shortest failing input
                        if fail.as_ref().map_or(true, |f| rec.log.len() < f.0.len()) {
                            fail = Some((rec.log, m, runs));
                        }
                    }
                    if fail.is_some() {
                        after += 1;
                        if after > 3000 { break; }
                    }
                }
                let f = match &fail {
                    None => "null".into(),
                    Some((log, m, n)) => format!("{{\"inputs\":\"{}\",\"message\":\"{}\",\"run\":{}}}", hex(log), esc(m), n),
                };
                println!("{{\"body\":\"{}\",\"runs\":{},\"kept\":{},\"fail\":{}}}", b.0, runs, kept, f);
            }
        }
        _ => std::process::exit(2),
    }
}

#[macro_export]
macro_rules! bodies { ($($module:ident::$name:ident;)*) => { &[$((stringify!($name), $module::$name::<harness::Rec> as harness::Body)),*] } }
