//! Replay harness: runs directed and seeded-random inputs against the real crate and compares with independent
//! reference definitions written from the property statements. `vx-replay PROP SEED SCALE OUT.json [--trace FILE]`
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as usize) as i64 }
}

#[derive(Clone)]
pub struct Viol { key: String, case: String, expected: String, got: String }
#[derive(Default)]
pub struct Shared { current: Mutex<(String, Option<Instant>)>, done: Mutex<Option<(u64, usize, Vec<String>, Vec<Viol>)>> }
pub struct Cx { pub rng: Rng, pub scale: usize, evals: u64, distinct: HashSet<u64>, samples: Vec<String>, viols: Vec<Viol>, keys: std::collections::HashMap<String, usize>, trace: Option<String>, sh: Arc<Shared>, prop: String, pub rule: String, out: String }
pub type Check = Result<(), (String, String)>;
pub fn same<T: PartialEq + std::fmt::Debug>(expected: T, got: T) -> Check { if expected == got { Ok(()) } else { Err((format!("{expected:?}"), format!("{got:?}"))) } }

impl Cx {
    /// One evaluation: `label` describes the input completely; `f` compares the code with the reference.
    pub fn case(&mut self, key: &str, label: impl Into<String>, f: impl FnOnce() -> Check) {
        let label = label.into();
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new(); (key, &label).hash(&mut h);
        if self.distinct.insert(h.finish()) && self.samples.len() < 8 && self.evals % 97 == 1 { self.samples.push(format!("{key}: {label}")); }
        if let Some(t) = &self.trace { let _ = std::fs::write(t, format!("{key}: {label}")); }
        *self.sh.current.lock().unwrap() = (format!("{key}: {label}"), Some(Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        self.sh.current.lock().unwrap().1 = None;
        let v = match r {
            Ok(Ok(())) => return,
            Ok(Err((e, g))) => Viol { key: key.into(), case: label, expected: e, got: g },
            Err(p) => { let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); Viol { key: format!("{key}/panic"), case: label, expected: "no panic".into(), got: format!("panic: {m}") } }
        };
        let n = self.keys.entry(v.key.clone()).or_insert(0); *n += 1;
        if *n <= 3 { self.viols.push(v); }
    }
    fn finish(&mut self) { write_out(&self.out, self.evals, self.distinct.len(), &self.samples, &self.viols, &self.rule); }
}
fn write_out(out: &str, evals: u64, distinct: usize, samples: &[String], viols: &[Viol], rule: &str) {
    let j = serde_json::json!({"evaluations": evals, "distinct": distinct, "samples": samples, "rule": rule,
        "violations": viols.iter().map(|v| serde_json::json!({"key": v.key, "case": v.case, "expected": v.expected, "got": v.got})).collect::<Vec<_>>()});
    std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

mod gen_;
mod real;
mod segs;
mod hosts;
mod refi;
mod parts;
mod sem;
mod decode;
mod progs;
#[cfg(not(feature = "full"))] mod laws;

mod params18;
#[cfg(feature = "full")] mod params17;
#[cfg(feature = "full")] mod cache20;
#[cfg(feature = "full")] mod http22;
#[cfg(feature = "full")] mod written24;
#[cfg(not(feature = "full"))] mod jobs21;
#[cfg(feature = "full")] mod run25;
#[cfg(not(feature = "full"))] mod leaf23;
pub fn de1<T: serde::de::DeserializeOwned>(v: &serde_json::Value) -> T { serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("does not deserialise: {e}: {v}")) }

#[cfg(feature = "full")]
fn run(cx: &mut Cx) { match cx.prop.clone().as_str() { "P17" => params17::p17(cx), "P20" => cache20::p20(cx), "P22" => http22::p22(cx), "P24" => written24::p24(cx), "P25" => run25::p25(cx), p => panic!("no replay for {p}") } }
#[cfg(not(feature = "full"))]
fn run(cx: &mut Cx) {
    match cx.prop.clone().as_str() {
        "P01" => hosts::p01(cx), "P02" => hosts::p02(cx), "P03" => hosts::p03(cx), "P04" => parts::p04(cx), "P05" => segs::run(cx), "P06" => parts::p06(cx),
        "P07" => laws::p07(cx), "P08" => laws::p08(cx), "P09" => laws::p09(cx), "P10" => laws::p10(cx), "P11" => laws::p11(cx),
        "P12" => laws::p12(cx), "P13" => laws::p13(cx), "P14" => laws::p14(cx), "P15" => laws::p15(cx), "P16" => laws::p16(cx), "P19" => decode::p19(cx), "P18" => params18::p18(cx), "P21" => jobs21::p21(cx), "P23" => leaf23::p23(cx),
        "SELF" => laws::selfcheck(cx),
        p => panic!("no replay for {p}"),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, scale, out) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<usize>().unwrap(), a[4].clone());
    let trace = a.iter().position(|x| x == "--trace").map(|i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|i| { if std::env::var_os("VX_SHOW").is_some() { eprintln!("{i}") } }));
    // SAFETY: no other thread exists yet
    unsafe { std::env::set_var("v1", "from the environment"); std::env::remove_var("v0"); std::env::remove_var("v2"); }
    let sh = Arc::new(Shared::default());
    let w = { let (sh, out) = (sh.clone(), out.clone()); std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut cx = Cx { rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xABCDEF), scale, evals: 0, distinct: Default::default(), samples: vec![], viols: vec![], keys: Default::default(), trace, sh: sh.clone(), prop, rule: String::new(), out };
        run(&mut cx);
        cx.finish();
        *sh.done.lock().unwrap() = Some((cx.evals, cx.distinct.len(), vec![], vec![]));
    }).unwrap() };
    let limit = Duration::from_secs(25);
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if w.is_finished() { break }
        let c = sh.current.lock().unwrap().clone();
        if let Some(t) = c.1 { if t.elapsed() > limit {
            let (k, l) = c.0.split_once(": ").unwrap_or(("hang", &c.0));
            write_out(&out, 0, 0, &[], &[Viol { key: format!("{k}/hang"), case: l.into(), expected: "terminates".into(), got: format!("still running after {limit:?}") }], "");
            std::process::exit(0);
        } }
    }
    if w.join().is_err() { eprintln!("harness thread panicked"); std::process::exit(3) }
}
