//! P21: one line of output per line of input, in the same order, whatever the number of threads: the real command-line
//! tool is run on seeded lists.
use crate::{Cx, Rng};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
#[derive(Debug, Clone, PartialEq)] enum Want { Text(String), TaskErr, LineErr }
/// A line and what should come of it. Rules: `fail.test` fails; `slow.test` first waits; `ctx.test` shows its context; every URL loses its query parameter `utm`.
fn line(r: &mut Rng, i: usize, arg: bool) -> (Vec<u8>, Want) {
    let ok = |h: &str| format!("https://{h}/{i}");
    match r.below(18) {
        0 | 1 => (format!("{}?utm=1", ok("fail.test")).into_bytes(), Want::TaskErr),
        2 | 3 => (format!("{}?utm=1&k={i}", ok("slow.test")).into_bytes(), Want::Text(format!("{}?k={i}", ok("slow.test")))),
        4 => (b"not a url".to_vec(), Want::LineErr), 5 => (if arg { b"http://".to_vec() } else { b"".to_vec() }, Want::LineErr), 6 => (b"{\"url\":".to_vec(), Want::LineErr), 7 => (b"\"https://".to_vec(), Want::LineErr),
        8 => (format!("\"{}?utm=2\"", ok("ok.test")).into_bytes(), Want::Text(ok("ok.test"))),
        9 => (serde_json::to_vec(&json!({"url": ok("ctx.test"), "context": {"vars": {"v": format!("c{i}")}}})).unwrap(), Want::Text(format!("{}#c{i}", ok("ctx.test")))),
        10 => (if arg { b"x".to_vec() } else { b"https://ok.test/\xff\xfe".to_vec() }, Want::LineErr),
        11 => (b"https://same.test/?utm=3".to_vec(), Want::Text("https://same.test/".into())),
        12 => (format!("HTTPS://OK.test:443/a/../{i}").into_bytes(), Want::Text(ok("ok.test"))), 13 => (b" https://ok.test/sp ".to_vec(), Want::Text("https://ok.test/sp".into())),
        14 => (ok("ctx.test").into_bytes(), Want::Text(ok("ctx.test"))),
        _ => (format!("{}?a=1&utm=2&b={i}", ok("ok.test")).into_bytes(), Want::Text(format!("{}?a=1&b={i}", ok("ok.test")))),
    }
}

pub fn config() -> Value {
    let on = |h: &str, m: Value| json!({"condition": {"HostIs": h}, "mapper": m});

    json!({"docs": {}, "params": {}, "cache_path": ":memory:", "rules": [
        on("slower.test", json!({"SetScratchpadVar": {"name": "x", "value": {"CommandOutput": {"program": "sleep", "args": ["6"], "envs": {}}}}})),
        on("slow.test", json!({"SetScratchpadVar": {"name": "x", "value": {"CommandOutput": {"program": "sleep", "args": ["0.02"], "envs": {}}}}})),
        on("ctx.test", json!({"SetPart": {"part": "Fragment", "value": {"Var": {"type": "TaskContext", "name": "v"}}}})),
        on("fail.test", json!({"Error": "asked to fail"})),
        {"condition": "Always", "mapper": {"RemoveQueryParam": "utm"}}]})
}
struct Run { out: Vec<u8>, code: Option<i32>, hung: bool }
fn run(cli: &str, args: &[Vec<u8>], stdin: Vec<u8>, stall: bool, dir: &std::path::Path) -> Run {
    use std::os::unix::ffi::OsStringExt;
    let mut c = Command::new(cli); c.current_dir(dir).args(args.iter().map(|a| std::ffi::OsString::from_vec(a.clone()))).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut p = c.spawn().expect("run the tool"); let mut i = p.stdin.take().unwrap(); let mut o = p.stdout.take().unwrap();
    let w = std::thread::spawn(move || { let half = stdin.len() / 2; for (n, c) in if stall { vec![&stdin[..half], &stdin[half..]] } else { stdin.chunks(700).collect() }.into_iter().enumerate() { if stall && n == 1 { std::thread::sleep(std::time::Duration::from_secs(4)) } if i.write_all(c).is_err() { break } } });
    let rd = std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v });
    let t = std::time::Instant::now(); let mut hung = false;
    let code = loop { match p.try_wait().unwrap() { Some(s) => break s.code(), None => { if t.elapsed().as_secs() >= 40 { hung = true; let _ = p.kill(); let _ = p.wait(); break None } std::thread::sleep(std::time::Duration::from_millis(2)) } } };
    let out = rd.join().unwrap(); if !hung { let _ = w.join(); }
    Run { out, code, hung }
}
pub fn p21(cx: &mut Cx) {
    cx.rule = "seeded lists of lines (argument URLs, standard input; failing, slow, malformed, blank, non-UTF-8, JSON lines), 1 to 9 threads and the default, plain and JSON output, through the command-line tool built from /repo".into();
    let Ok(cli) = std::env::var("VX_CLI") else { panic!("VX_CLI: the command-line tool's path") };
    let dir = std::env::current_dir().unwrap().join(format!("p21-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("c.json"), config().to_string()).unwrap();
    for k in 0..150 * cx.scale {
        let mut r = Rng(cx.rng.next() | 1); let big = k % 15 == 14;
        let (na, ns) = (if r.chance(1, 3) { 0 } else { r.below(6) }, match k % 6 { 0 => 0, 1 => 1, _ => if big { 400 + r.below(800) } else { r.below(40) } });
        let threads = if r.chance(1, 8) { 0 } else { r.below(9) + 1 }; let js = r.chance(1, 3); let quiet = r.chance(1, 20); let crlf = r.chance(1, 6); let last = r.chance(1, 3);
        let only = match r.below(8) { 0 => Some(true), 1 => Some(false), _ => None }; // every line succeeds, every line fails
        let mut pick = |r: &mut Rng, i: usize, arg: bool| loop { let (l, w) = line(r, i, arg); if big && matches!(w, Want::Text(ref t) if t.contains("slow")) && r.chance(9, 10) { continue } if arg && l.starts_with(b"-") { continue } if only.is_none_or(|o| o == matches!(w, Want::Text(_))) { return (l, w) } };
        let mut want = vec![]; let mut urls = vec![]; let mut lines = vec![];
        for i in 0..na { let (l, w) = pick(&mut r, i, true); urls.push(l); want.push(w); }
        for i in 0..ns { let (l, w) = pick(&mut r, na + i, false); lines.push(l); want.push(w); }
        // a task that takes long, and a list that arrives slowly
        let stall = match k { 1 => { let at = lines.len() / 2; lines.insert(at, b"https://slower.test/?utm=1".to_vec()); want.insert(na + at, Want::Text("https://slower.test/".into())); false } 2 => true, _ => false };
        // a final line without its end is a line unless it is empty
        let mut stdin = vec![]; for (i, l) in lines.iter().enumerate() { stdin.extend_from_slice(l); if !(last && i + 1 == lines.len() && !l.is_empty()) { if crlf { stdin.push(b'\r') } stdin.push(b'\n') } }
        let mut args: Vec<Vec<u8>> = vec![b"--config".to_vec(), b"c.json".to_vec(), b"--threads".to_vec(), threads.to_string().into_bytes()]; if js { args.push(b"--json".to_vec()) } if quiet { args.push(b"--debug-no-printing".to_vec()) } args.push(b"--".to_vec()); args.extend(urls.iter().cloned());
        let label = format!("url-cleaner {:?}; config {}; standard input {:?}", args.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>(), config(), { let s = String::from_utf8_lossy(&stdin).to_string(); if s.len() > 1500 { format!("{} bytes, {}..", s.len(), s.chars().take(1400).collect::<String>()) } else { s } });
        cx.case(if js { "p21/json" } else { "p21/lines" }, label, || {
            let g = run(&cli, &args, stdin, stall, &dir); let short = |v: &Vec<String>| { let t = format!("{v:?}"); if t.len() > 4000 { format!("{} items, {}..", v.len(), t.chars().take(4000).collect::<String>()) } else { t } };
            if g.hung { return Err(("ends".into(), "still running after 40 s".into())) }
            if quiet { return crate::same(Vec::<u8>::new(), g.out) }
            let text = String::from_utf8_lossy(&g.out).to_string();
            let (w, got): (Vec<String>, Vec<String>) = if js {
                let v: Value = serde_json::from_str(&text).map_err(|e| ("JSON".to_string(), format!("{e}: {text:.2000}")))?;
                let items = v["Ok"]["urls"].as_array().cloned().unwrap_or_default();
                let shape = json!({"Ok": {"urls": items}}); if v != shape { return Err((shape.to_string(), v.to_string())) }
                let kind = |x: &Value| { let e = |x: &Value| x.as_object().is_some_and(|o| o.len() == 2 && o["message"].is_string() && o["variant"].as_str().is_some_and(|t| !t.is_empty())); let one = x.as_object().is_some_and(|o| o.len() == 1);
                    if one && x["Ok"]["Ok"].is_string() && x["Ok"].as_object().unwrap().len() == 1 { x["Ok"]["Ok"].as_str().unwrap().to_string() } else if one && e(&x["Ok"]["Err"]) { "task error".into() } else if one && e(&x["Err"]) { "line error".into() } else { x.to_string() } };
                (want.iter().map(|w| match w { Want::Text(t) => t.clone(), Want::TaskErr => "task error".into(), Want::LineErr => "line error".into() }).collect(), items.iter().map(kind).collect())
            } else {
                let mut got: Vec<String> = text.split('\n').map(|s| s.to_string()).collect(); if got.last().is_some_and(|x| x.is_empty()) { got.pop(); } else { got.push("(no end of line)".into()) }
                (want.iter().map(|w| match w { Want::Text(t) => t.clone(), _ => String::new() }).collect(), got)
            };
            if w != got { let at = w.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(w.len().min(got.len())); return Err((format!("at {at}: {}", short(&w)), format!("at {at}: {}", short(&got)))) }
            let (ok, err) = (want.iter().any(|w| matches!(w, Want::Text(_))), want.iter().any(|w| !matches!(w, Want::Text(_))));
            let code = match (ok, err) { (_, false) => 0, (false, true) => 1, (true, true) => 2 };
            if g.code != Some(code) { return Err((format!("exit code {code}"), format!("{:?}", g.code))) }
            Ok(())
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
}
