//! P25: the tool runs with exactly the configuration asked for, and its tests tell the truth: the real command-line tool is
//! run with seeded configurations, overrides and tests.
use crate::{Cx, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};
use url_cleaner::glue::*;
use url_cleaner::types::*;
const VARS: &[&str] = &["a", "b", "x"]; const FLAGS: &[&str] = &["f", "g"]; const SETS: &[&str] = &["s", "t"];
#[derive(Clone, Debug, Default, PartialEq)] struct State { vars: BTreeMap<String, String>, flags: BTreeSet<String>, sets: BTreeMap<String, BTreeSet<String>> }
/// One override: what it inserts and what it removes (never the same name in both).
#[derive(Clone, Debug, Default)] struct Over { vars: BTreeMap<String, String>, unvars: BTreeSet<String>, flags: BTreeSet<String>, unflags: BTreeSet<String>, put: BTreeMap<String, String>, take: BTreeMap<String, String> }
fn over(r: &mut Rng, tag: &str) -> Over {
    let mut o = Over::default();
    for v in VARS { match r.below(4) { 0 => { o.vars.insert(v.to_string(), format!("{tag}{v}")); } 1 => { o.unvars.insert(v.to_string()); } _ => {} } }
    for f in FLAGS { match r.below(4) { 0 => { o.flags.insert(f.to_string()); } 1 => { o.unflags.insert(f.to_string()); } _ => {} } }
    for s in SETS { match r.below(5) { 0 => { o.put.insert(s.to_string(), "m".into()); } 1 => { o.take.insert(s.to_string(), "m".into()); } _ => {} } }
    o
}
impl Over {
    fn apply(&self, s: &mut State) {
        s.vars.extend(self.vars.clone()); for k in &self.unvars { s.vars.remove(k); }
        s.flags.extend(self.flags.iter().cloned()); for k in &self.unflags { s.flags.remove(k); }
        for (k, v) in &self.put { s.sets.entry(k.clone()).or_default().insert(v.clone()); } for (k, v) in &self.take { if let Some(x) = s.sets.get_mut(k) { x.remove(v); } }
    }
    fn json(&self) -> Value {
        let l = |m: &BTreeMap<String, String>| m.iter().map(|(k, v)| (k.clone(), json!([v]))).collect::<serde_json::Map<_, _>>();
        json!({"vars": self.vars, "unvars": self.unvars, "flags": self.flags, "unflags": self.unflags, "insert_into_sets": l(&self.put), "remove_from_sets": l(&self.take)})
    }
    fn args(&self) -> Vec<String> {
        let mut a: Vec<String> = vec![]; let mut p = |x: &[&str]| a.extend(x.iter().map(|s| s.to_string()));
        for (k, v) in &self.vars { p(&["--var", k, v]) } for k in &self.unvars { p(&["--unvar", k]) } for k in &self.flags { p(&["--flag", k]) } for k in &self.unflags { p(&["--unflag", k]) }
        for (k, v) in &self.put { p(&["--insert-into-set", k, v]) } for (k, v) in &self.take { p(&["--remove-from-set", k, v]) }
        a
    }
}
/// Rules that show the state in the query: variables, flags, set members, the contexts and what the cache says.
fn config(s: &State, cache: Option<&str>) -> Value {
    let set = |n: &str, v: Value| json!({"SetPart": {"part": {"QueryParam": n}, "value": v}}); let q = |n: &str, v: Value| json!({"condition": "Always", "mapper": set(n, v)});
    let mut rules = vec![];
    for v in VARS { rules.push(q(&format!("v{v}"), json!({"Var": {"type": "Params", "name": v}}))) }
    for f in FLAGS { rules.push(json!({"condition": {"FlagIsSet": f}, "mapper": set(&format!("f{f}"), json!("1"))})) }
    for t in SETS { rules.push(json!({"condition": {"StringMatches": {"value": "m", "matcher": {"InSet": t}}}, "mapper": set(&format!("s{t}"), json!("1"))})) }
    rules.push(q("j", json!({"Var": {"type": "JobContext", "name": "j"}}))); rules.push(q("t", json!({"Var": {"type": "TaskContext", "name": "t"}})));
    rules.push(json!({"condition": {"HostIs": "cache.test"}, "mapper": set("c", json!({"Cache": {"category": "c", "key": "k", "value": "none"}}))}));
    rules.push(json!({"condition": {"HostIs": "fail.test"}, "mapper": {"Error": "asked to fail"}}));
    let mut c = json!({"params": {"vars": s.vars, "flags": s.flags, "sets": s.sets}, "rules": rules});
    if let Some(p) = cache { c["cache_path"] = json!(p) }
    c
}
fn cleaned(s: &State, host: &str, i: usize, job: Option<&str>, task: Option<&str>, cache: &str) -> String {
    let mut q: Vec<String> = vec![];
    for v in VARS { if let Some(x) = s.vars.get(*v) { q.push(format!("v{v}={x}")) } }
    for f in FLAGS { if s.flags.contains(*f) { q.push(format!("f{f}=1")) } }
    for t in SETS { if s.sets.get(*t).is_some_and(|x| x.contains("m")) { q.push(format!("s{t}=1")) } }
    if let Some(j) = job { q.push(format!("j={j}")) } if let Some(t) = task { q.push(format!("t={t}")) }
    if host == "cache.test" { q.push(format!("c={cache}")) }
    format!("https://{host}/{i}{}{}", if q.is_empty() { "" } else { "?" }, q.join("&"))
}
struct Run { out: String, err: String, code: Option<i32> }
fn run(cli: &str, args: &[String], dir: &std::path::Path) -> Result<Run, (String, String)> {
    let mut p = Command::new(cli).current_dir(dir).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("run the tool");
    let rd = |mut o: Box<dyn std::io::Read + Send>| std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); String::from_utf8_lossy(&v).to_string() });
    let (o, e) = (rd(Box::new(p.stdout.take().unwrap())), rd(Box::new(p.stderr.take().unwrap())));
    let t = std::time::Instant::now();
    let code = loop { match p.try_wait().unwrap() { Some(s) => break s.code(), None => { if t.elapsed().as_secs() >= 20 { let _ = p.kill(); let _ = p.wait(); return Err(("ends".into(), "still running after 20 s".into())) } std::thread::sleep(std::time::Duration::from_millis(3)) } } };
    Ok(Run { out: o.join().unwrap(), err: e.join().unwrap(), code })
}
fn state(r: &mut Rng) -> State { let mut s = State::default(); for v in VARS { if r.chance(1, 2) { s.vars.insert(v.to_string(), format!("0{v}")); } } for f in FLAGS { if r.chance(1, 2) { s.flags.insert(f.to_string()); } } for t in SETS { s.sets.insert(t.to_string(), if r.chance(1, 2) { ["m".to_string()].into() } else { BTreeSet::new() }); } s }
pub fn p25(cx: &mut Cx) {
    cx.rule = "seeded configurations, override files and options (in every number and order), caches, job contexts and test files (right and wrong in one place), unreadable files of each kind, through the command-line tool built from the working tree, against an independent account of what the configuration then says; the built-in configuration against the library's".into();
    let Ok(cli) = std::env::var("VX_CLI") else { panic!("VX_CLI: the command-line tool's path") };
    let dir = std::env::current_dir().unwrap().join(format!("p25-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    let wr = |n: &str, v: &str| std::fs::write(dir.join(n), v).unwrap();
    let base = |r: &mut Rng| -> (State, State, Vec<String>, String, Option<&'static str>) {
        // configuration, files of overrides, options
        let s0 = state(r); let cp = [None, Some(":memory:"), Some("one.sqlite"), Some("two.sqlite")][r.below(4)];
        let c = config(&s0, cp); wr("c.json", &c.to_string());
        for (n, v) in [("one.sqlite", "one"), ("two.sqlite", "two")] { let _ = std::fs::remove_file(dir.join(n)); let k = Cache::from(CachePath::from(dir.join(n).to_str().unwrap())); k.write("c", "k", Some(v)).expect("a cache"); }
        let _ = std::fs::remove_file(dir.join("default-cache.sqlite"));
        let mut a: Vec<String> = vec![if r.chance(1, 2) { "--config".into() } else { "-c".into() }, "c.json".into()]; let mut s = s0.clone(); let mut what = format!("c.json {c}");
        let mut names = vec!["zz", "d1", "a2", "m3"]; for i in 0..3 { let j = i + r.below(4 - i); names.swap(i, j); }
        let mut again = None; for i in 0..r.below(4) { let o = over(r, &format!("{}", i + 1)); let n = format!("{}.json", names[i]); wr(&n, &o.json().to_string()); what += &format!("; {n} {}", o.json()); o.apply(&mut s); a.extend(["--params-diff".into(), n.clone()]); if i == 0 && r.chance(1, 3) { again = Some((o, n)) } }
        if let Some((o, n)) = again { o.apply(&mut s); a.extend(["--params-diff".into(), n]) }
        if r.chance(1, 2) { let o = over(r, "9"); let at = if r.chance(1, 2) { o.apply(&mut s); a.len() } else { o.apply(&mut s); 2 }; let x = o.args(); a.splice(at..at, x); }
        (s0, s, a, what, cp)
    };
    for k in 0..132 * cx.scale {
        let mut r = Rng(cx.rng.next() | 1); let (_, s, mut a, mut what, cp) = base(&mut r);
        let cache = match r.below(4) { 0 => { a.extend(["--cache-path".into(), "one.sqlite".into()]); "one" } 1 => { a.extend(["--cache-path".into(), "two.sqlite".into()]); "two" } 2 => { a.extend(["--cache-path".into(), ":memory:".into()]); "none" }
            _ => match cp { Some("one.sqlite") => "one", Some("two.sqlite") => "two", _ => "none" } };
        let job = if r.chance(1, 2) { let j = ["", "J", "q-1"][r.below(3)]; a.extend(["--job-context".into(), json!({"vars": {"j": j}}).to_string()]); Some(j) } else { None };
        if r.chance(1, 3) { a.extend(["--threads".into(), (1 + r.below(3)).to_string()]) }
        // one thing that cannot be read
        let bad = if k % 3 == 2 { let b = ["no configuration", "bad configuration", "no override", "bad override", "bad job context", "half a variable", "bad type", "a folder", "bad configuration", "bad job context", "bad override"][k / 3 % 11];
            match b { "no configuration" => a[1] = "absent.json".into(), "bad configuration" => wr("c.json", &["", " \n", "{", "{\"params\":{}}", "{\"rules\":[],\"x\":", "null"][k / 33 * 2 % 6 + (k / 3 % 11 == 8) as usize]), "a folder" => a[1] = ".".into(),
                "no override" => a.extend(["--params-diff".into(), "absent.json".into()]), "bad override" => { wr("bad.json", ["", "{", "[1]", "\"x\"", " ", "null", "{} x"][(k / 33 * 2 + (k / 3 % 11 == 10) as usize) % 7]); a.extend(["--params-diff".into(), "bad.json".into()]) },
                "bad type" => { wr("bad.json", "{\"flags\":1}"); a.extend(["--params-diff".into(), "bad.json".into()]) },
                "bad job context" => { if let Some(i) = a.iter().position(|x| x == "--job-context") { a.drain(i..i + 2); } a.extend(["--job-context".into(), ["", "{", "[]x", "7", " ", "null", "{}}"][(k / 33 * 2 + (k / 3 % 11 == 9) as usize) % 7].into()]) }, _ => a.extend(["--var".into(), "a".into()]) }
            Some(b) } else { None };
        a.push("--".into()); let mut want = vec![];
        for i in 0..1 + r.below(4) { let h = ["show.test", "cache.test", "show.test"][r.below(3)]; let t = if r.chance(1, 3) { Some(format!("T{i}")) } else { None }; let u = format!("https://{h}/{i}");
            a.push(match &t { Some(t) => json!({"url": u, "context": {"vars": {"t": t}}}).to_string(), None => u }); want.push(cleaned(&s, h, i, job, t.as_deref(), cache)); }
        what += &format!("; one.sqlite and two.sqlite hold c/k = one and two{}", bad.map_or(String::new(), |b| format!("; {b}")));
        cx.case(if bad.is_some() { "p25/unreadable" } else { "p25/asked" }, format!("url-cleaner {a:?}; {what}"), || {
            let g = run(&cli, &a, &dir)?;
            if bad.is_some() { if g.code == Some(0) || g.code.is_none() || !g.out.is_empty() { return Err(("an error, and nothing printed".into(), format!("exit {:?}, {:?}", g.code, g.out))) } return Ok(()) }
            crate::same((Some(0), want.clone()), (g.code, g.out.lines().map(String::from).collect::<Vec<_>>())).map_err(|(e, x)| (e, format!("{x} {:.400}", g.err)))
        });
    }
    for k in 0..80 * cx.scale {
        let mut r = Rng(cx.rng.next() | 1); let (_, s, mut a, mut what, _) = base(&mut r);
        let nf = 1 + r.below(2); let mut files = vec![]; let mut slots = vec![];
        for f in 0..nf { let ns = r.below(4); let mut sets = vec![];
            for n in 0..ns { let o = if r.chance(1, 2) { Some(over(&mut r, &format!("s{f}{n}"))) } else { None }; let mut st = s.clone(); if let Some(o) = &o { o.apply(&mut st) }
                let job = if r.chance(1, 2) { Some(format!("J{n}")) } else { None }; let mut tests = vec![];
                for i in 0..r.below(4) { let h = ["show.test", "cache.test"][r.below(2)]; let t = if r.chance(1, 3) { Some(format!("T{i}")) } else { None }; let u = format!("https://{h}/{i}");
                    let task = match &t { Some(t) => json!({"url": u, "context": {"vars": {"t": t}}}), None => json!(u) };
                    slots.push((f, n, i)); tests.push(json!({"task_config": task, "result": cleaned(&st, h, i, job.as_deref(), t.as_deref(), "none")})); }
                let mut set = json!({"tests": tests}); if let Some(o) = &o { set["params_diff"] = o.json() } if let Some(j) = &job { set["job_context"] = json!({"vars": {"j": j}}) } sets.push(set); }
            // the last set once more
            if ns > 0 && r.chance(1, 2) { let set = sets[ns - 1].clone(); for i in 0..set["tests"].as_array().unwrap().len() { slots.push((f, ns, i)); } sets.push(set); }
            files.push(json!({"sets": sets})); }
        // one wrong expectation, or a task that fails
        let wrong = if k % 2 == 1 && !slots.is_empty() { let (f, n, i) = slots[if r.chance(1, 2) { slots.len() - 1 } else { r.below(slots.len()) }]; let t = &mut files[f]["sets"][n]["tests"][i]; let e = t["result"].as_str().unwrap().to_string();
            let kind = k / 2 % 8; match kind { 0 => t["result"] = json!(format!("{e}#f")), 1 => t["result"] = json!(e.replacen("https:", "http:", 1)), 2 => t["result"] = json!(if e.contains('?') { format!("{e}&z") } else { format!("{e}?") }), 3 => t["result"] = json!(e.replacen(".test", ".test:8", 1)), 4 => t["result"] = json!(e.replacen("https://", "https://u@", 1)),
                5 => { t["task_config"] = json!("https://fail.test/0"); t["result"] = json!(if k / 16 % 2 == 0 { "https://fail.test/0".to_string() } else { e.replacen("show.test", "fail.test", 1).replacen("cache.test", "fail.test", 1) }) }, 6 => { t["result"] = t["task_config"].get("url").unwrap_or(&t["task_config"]).clone(); if t["result"] == json!(e) { t["result"] = json!("https://show.test/other/0") } } _ => t["result"] = json!(format!("https://show.test/other/{i}")) } Some(format!("wrong: file {f} set {n} test {i} ({kind})")) } else { None };
        let unread = wrong.is_none() && k % 8 == 0; if unread { let l = files.len() - 1; if r.chance(1, 2) { files[l]["sets"] = json!(7) } else if r.chance(1, 2) { files[l]["sets"] = json!([{"tests": [{"task_config": "not a url", "result": "https://a.test/"}]}]) } else { files.remove(l); } }
        for (i, f) in files.iter().enumerate() { wr(&format!("t{i}.json"), &f.to_string()); what += &format!("; t{i}.json {f}"); } if files.len() < nf { let _ = std::fs::remove_file(dir.join(format!("t{}.json", files.len()))); what += "; the last test file is absent"; }
        for i in 0..nf { a.extend(["--tests".into(), format!("t{i}.json")]) }
        a.push("--".into()); a.push("https://show.test/77".into());
        if let Some(w) = &wrong { what += &format!("; {w}") }
        let fails = wrong.is_some() || unread;
        cx.case(if fails { "p25/tests-wrong" } else { "p25/tests-right" }, format!("url-cleaner {a:?}; {what}"), || {
            let g = run(&cli, &a, &dir)?;
            if g.out.contains("show.test/77") { return Err(("tests clean nothing".into(), g.out)) }
            match (fails, g.code) { (false, Some(0)) => Ok(()), (true, Some(c)) if c != 0 => Ok(()), (f, c) => Err((if f { "the tests fail".into() } else { "the tests pass".into() }, format!("exit {c:?} {:.600}", g.err))) }
        });
    }
    // the built-in configuration is what runs when none is given
    let lib = |u: &str| { let c = JobConfig { config: std::borrow::Cow::Owned(Config::get_default_no_cache().unwrap()), cache: Cache::default() }; let j = JobContext::default(); match c.new_task(u.parse().unwrap(), &j).r#do() { Ok(u) => u.to_string(), Err(_) => String::new() } };
    let us = ["https://example.com/?utm_source=a&x=1", "https://www.youtube.com/watch?v=abc&si=d", "https://example.com/a?fbclid=1#b", "http://example.org"];
    let mut a: Vec<String> = vec!["--cache-path".into(), ":memory:".into(), "--".into()]; a.extend(us.iter().map(|u| u.to_string())); let want: Vec<String> = us.iter().map(|u| lib(u)).collect();
    cx.case("p25/built-in", format!("url-cleaner {a:?}"), || { let g = run(&cli, &a, &dir)?; if want[0] != "https://example.com/?x=1" { return Err(("the built-in configuration removes utm_source".into(), want[0].clone())) } crate::same(want.clone(), g.out.lines().map(String::from).collect::<Vec<_>>()) });
    // the same through the library: one load does not affect the next
    let c1 = config(&State::default(), None); wr("l1.json", &c1.to_string());
    cx.case("p25/library", "Config::load_or_get_default for a file, none, and a file again", || {
        let p = dir.join("l1.json"); let file: Config = serde_json::from_value(c1.clone()).unwrap(); let d = Config::get_default_no_cache().map_err(|e| ("loads".to_string(), e.to_string()))?;
        for i in 0..3 { let f = Config::load_or_get_default(Some(&p)).map_err(|e| ("loads".to_string(), e.to_string()))?; if *f != file { return Err((format!("step {i}: the file's configuration"), "another".into())) }
            let g = Config::load_or_get_default(None::<&str>).map_err(|e| ("loads".to_string(), e.to_string()))?; if *g != d || *Config::get_default().unwrap() != d { return Err((format!("step {i}: the built-in configuration"), "another".into())) }
            if Config::load_from_file(&p).unwrap() != file || Config::load_or_get_default_no_cache(Some(&p)).unwrap() != file || Config::load_or_get_default_no_cache(None::<&str>).unwrap() != d { return Err((format!("step {i}: the same without the cache"), "another".into())) } }
        if Config::load_from_file(dir.join("absent.json")).is_ok() || Config::load_or_get_default(Some(dir.join("absent.json"))).is_ok() { return Err(("an error for an absent file".into(), "a configuration".into())) }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
}
