//! P20: the cache.
use crate::{Cx, Rng, same};
use std::collections::BTreeMap;
use std::path::PathBuf;
use url_cleaner::glue::*;
const C: &[&str] = &["", "a", "A", "redirect", "a b", "é", "%", "_", "a'b", "1", "1.0", "NULL"];
const V: &[&str] = &["", "x", "https://example.com/?q=1", "é🙂", "'; DROP TABLE cache; --", "NULL", "0", " x "];
#[derive(Debug, Clone)] enum Op { Read(String, String), Write(String, String, Option<String>), Reopen, Disconnect }
fn ops(r: &mut Rng) -> Vec<Op> {
    let few = r.chance(1, 2); let n = 1 + r.below(14);
    (0..n).map(|_| { let mut k = || { let m = if few { 3 } else { C.len() }; C[r.below(m)].to_string() }; let (a, b) = (k(), k());
        match r.below(12) { 0..=4 => Op::Read(a, b), 5..=9 => Op::Write(a, b, if r.chance(1, 4) { None } else { Some(r.pick(V).to_string()) }), 10 => Op::Reopen, _ => Op::Disconnect } }).collect()
}
fn open(p: &str, raw: bool) -> Result<Cache, String> { if raw { serde_json::from_value::<CachePath>(serde_json::json!(p)).map(Cache::from).map_err(|e| e.to_string()) } else { Ok(Cache::from(CachePath::from(p))) } }
/// Run a history over one or more handles to one database against a plain map.
fn history(path: &str, memory: bool, handles: usize, ops: &[Op], start: &BTreeMap<(String, String), Option<String>>) -> Result<(), (String, String)> {
    let mut model = start.clone();
    let mut h: Vec<Cache> = vec![]; for i in 0..handles { h.push(if memory && i > 0 { h[0].clone() } else { open(path, i % 2 == 1).map_err(|e| ("opens".to_string(), e))? }) }
    for (i, op) in ops.iter().enumerate() {
        let j = i % handles; let at = |e: String, g: String| (format!("step {i} {op:?}: {e}"), format!("step {i} {op:?}: {g}"));
        match op {
            Op::Read(a, b) => { let want = model.get(&(a.clone(), b.clone())).cloned(); match h[j].read(a, b) { Ok(g) => same(want, g).map_err(|(e, g)| at(e, g))?, Err(e) => return Err(at(format!("{want:?}"), format!("error {e}"))) } },
            Op::Write(a, b, v) => { match h[j].write(a, b, v.as_deref()) { Ok(()) => { model.insert((a.clone(), b.clone()), v.clone()); }, Err(e) => return Err(at("written".into(), format!("error {e}"))) } },
            Op::Reopen => if !memory { h[j] = open(path, false).map_err(|e| ("opens".to_string(), e))?; },
            Op::Disconnect => if !memory { let c = h[j].0.clone(); c.lock().unwrap().disconnect(); },
        }
    }
    for a in C { for b in C { let want = model.get(&(a.to_string(), b.to_string())).cloned(); match h[0].read(a, b) { Ok(g) => same(want, g).map_err(|(e, g)| (format!("at the end {a:?}/{b:?}: {e}"), format!("at the end {a:?}/{b:?}: {g}")))?, Err(e) => return Err((format!("at the end {a:?}/{b:?}: {want:?}"), format!("error {e}"))) } } }
    Ok(())
}
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn p20(cx: &mut Cx) {
    cx.rule = "random histories of reads and writes over small and large sets of categories, keys and values (quotes, wildcards, case variants, absent values), on an in-memory database and on scratch files: fresh, left empty by an interrupted creation, reopened and disconnected mid-history, named by a file:// URL, and used by two handles at once; random sequences of cached actions, cached sources and redirect expansions against a local server with reading and writing switched on and off, on a database that takes every write and on one that refuses some; every read and a final sweep of all keys compared with a plain map".into();
    let d = std::env::current_dir().unwrap().join(format!("cache20-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap(); let d = Scratch(d); wrappers(cx, &d.0);
    for n in 0..260 * cx.scale {
        let o = ops(&mut cx.rng); let kind = cx.rng.below(7); let p = d.0.join(format!("c{n}.sqlite")); let ps = p.to_str().unwrap().to_string(); let none = BTreeMap::new();
        let what = ["in memory", "in a new file", "in a new file, two handles", "in an existing empty file", "in a new file named by a file:// URL", "in memory, two clones of the handle", "in a file with earlier entries"][kind];
        cx.case(&format!("cache/{}", ["memory", "file", "two", "empty-file", "file-url", "clone", "existing"][kind]), format!("{what}: {o:?}"), || {
            let r = match kind {
                0 => history(":memory:", true, 1, &o, &none), 5 => history(":memory:", true, 2, &o, &none),
                1 => history(&ps, false, 1, &o, &none), 2 => history(&ps, false, 2, &o, &none),
                3 => { std::fs::File::create_new(&p).unwrap(); history(&ps, false, 1, &o, &none) },
                4 => history(&format!("file://{ps}"), false, 1, &o, &none),
                _ => { let c = open(&ps, false).unwrap(); let mut m = BTreeMap::new(); for (i, k) in C.iter().enumerate() { if i % 2 == 0 { c.write(k, "a", Some(V[i % V.len()])).map_err(|e| ("written".to_string(), e.to_string()))?; m.insert((k.to_string(), "a".to_string()), Some(V[i % V.len()].to_string())); } } drop(c); history(&ps, false, 1, &o, &m) },
            };
            let _ = std::fs::remove_file(&p); r
        });
    }
}
// ---- the operations that go through the cache
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use url_cleaner::types::*;
type M = BTreeMap<(String, String), Option<String>>;
const CATS: &[&str] = &["c", "d", "redirect"];
/// A server that answers by path and remembers what it was asked.
struct Srv { base: String, asked: Arc<Mutex<Vec<String>>> }
fn serve() -> Srv {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); let base = format!("http://127.0.0.1:{}", l.local_addr().unwrap().port()); let asked = Arc::new(Mutex::new(vec![])); let (b, a) = (base.clone(), asked.clone());
    std::thread::spawn(move || for s in l.incoming() { let Ok(mut s) = s else { continue }; let mut buf = vec![]; let mut t = [0u8; 2048];
        while !buf.windows(4).any(|w| w == b"\r\n\r\n") { match s.read(&mut t) { Ok(0) | Err(_) => break, Ok(n) => buf.extend_from_slice(&t[..n]) } }
        let head = String::from_utf8_lossy(&buf).to_string(); let path = head.split(' ').nth(1).unwrap_or("").to_string();
        a.lock().unwrap().push(format!("{path} x-k={}", head.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("x-k: ").map(|x| x.to_string())).unwrap_or_default()));
        let (st, loc) = answer(&b, path.split('?').next().unwrap());
        let _ = write!(s, "HTTP/1.1 {st} X\r\nContent-Length: 0\r\nConnection: close\r\n{}\r\n", loc.map(|l| format!("Location: {l}\r\n")).unwrap_or_default());
    });
    Srv { base, asked }
}
fn answer(b: &str, path: &str) -> (u16, Option<String>) { match path { "/1" => (301, Some(format!("{b}/ok?x=1"))), "/2" => (302, Some("https://example.com/a b?q=%41#f".into())), "/3" => (303, Some("/relative".into())), "/4" => (307, None), "/5" => (308, Some(format!("{b}/1"))), "/6" => (404, Some("https://example.com/not-a-redirect".into())), "/7" => (200, Some("https://example.com/neither".into())), "/8" => (302, Some("not a url".into())), _ => (200, None) } }
/// Where one unfollowed request leads, or nothing for an error.
fn leads(b: &str, url: &str) -> Option<String> { let u = url::Url::parse(url).ok()?; let (st, loc) = answer(b, u.path()); if (300..400).contains(&st) { url::Url::parse(&loc?).ok().map(|x| x.to_string()) } else { Some(url.to_string()) } }
fn show(v: &Value) -> String { v.to_string() }
/// The meaning of an action: success, and what happens to URL and cache.
fn act(v: &Value, url: &mut String, m: &mut M, rd: bool, wr: bool, no: bool, b: &str, asks: &mut Vec<String>) -> bool {
    let norm = |t: &str| url::Url::parse(t).ok().map(|x| x.to_string());
    let (k, x) = match v { Value::String(s) => (s.as_str(), &Value::Null), _ => { let (k, x) = v.as_object().unwrap().iter().next().unwrap(); (k.as_str(), x) } };
    match k {
        "Join" => { match url::Url::parse(url).ok().and_then(|u| u.join(x.as_str().unwrap()).ok()) { Some(u) => { *url = u.to_string(); true }, None => false } },
        "Error" => false,
        "All" => x.as_array().unwrap().iter().all(|y| act(y, url, m, rd, wr, no, b, asks)),
        "CacheUrl" => {
            let Some(c) = x["category"].as_str() else { return false };
            if rd { if let Some(e) = m.get(&(c.to_string(), url.clone())) { return match e.as_deref().and_then(norm) { Some(u) => { *url = u; true }, None => false } } }
            let old = url.clone(); if !act(&x["mapper"], url, m, rd, wr, no, b, asks) { return false }
            if wr { if no && c != "c" { return false } m.insert((c.to_string(), old), Some(url.clone())); } true
        },
        "ExpandRedirect" => {
            if rd { if let Some(e) = m.get(&("redirect".to_string(), url.clone())) { return match e.as_deref().and_then(norm) { Some(u) => { *url = u; true }, None => false } } }
            if !url.starts_with(b) { return false }
            asks.push(format!("{} x-k={}", &url::Url::parse(url).unwrap()[url::Position::BeforePath..url::Position::AfterQuery], x["headers"]["x-k"].as_str().unwrap_or_default()));
            match leads(b, url) { Some(u) => { if wr { if no { return false } m.insert(("redirect".to_string(), url.clone()), Some(u.clone())); } *url = u; true }, None => false }
        },
        _ => unreachable!(),
    }
}
fn gen_act(r: &mut Rng, d: usize, b: &str) -> Value {
    match r.below(if d == 0 { 4 } else { 8 }) {
        0 | 1 => json!({"Join": *r.pick(&["/1", "/2", "/3", "/4", "/5", "/6", "/7", "/8", "/ok", "a", "?x=1", "https://example.com/z"])}),
        2 => json!({"Error": "no"}), 3 => redirect(r),
        4 | 5 => { let n = 1 + r.below(3); json!({"All": (0..n).map(|_| gen_act(r, d - 1, b)).collect::<Vec<_>>()}) },
        _ => { let c = if r.chance(1, 8) { Value::Null } else { json!(*r.pick(CATS)) }; json!({"CacheUrl": {"category": c, "mapper": gen_act(r, d - 1, b)}}) },
    }
}
fn redirect(r: &mut Rng) -> Value { let mut x = json!({"http_client_config_diff": {"redirect_policy": "None", "no_proxy": true}}); if r.chance(1, 3) { x["headers"] = json!({"x-k": "v"}) } json!({"ExpandRedirect": x}) }
/// A cached text source: its value or nothing, or an error.
fn src(v: &Value, m: &mut M, rd: bool, wr: bool, no: bool) -> Result<Option<String>, ()> {
    match v { Value::Null => Ok(None), Value::String(s) => Ok(Some(s.clone())), _ => { let (k, x) = v.as_object().unwrap().iter().next().unwrap(); match k.as_str() { "Error" => Err(()), _ => {
        let Ok(Some(c)) = src(&x["category"], m, rd, wr, no) else { return Err(()) }; let Ok(Some(k)) = src(&x["key"], m, rd, wr, no) else { return Err(()) };
        if rd { if let Some(e) = m.get(&(c.clone(), k.clone())) { return Ok(e.clone()) } }
        let t = src(&x["value"], m, rd, wr, no)?; if wr { if no && c != "c" { return Err(()) } m.insert((c, k), t.clone()); } Ok(t) } } } }
}
fn gen_src(r: &mut Rng, d: usize) -> Value { match r.below(if d == 0 { 4 } else { 7 }) { 0 => Value::Null, 1 => json!({"Error": "no"}), 2 | 3 => json!(*r.pick(&["c", "d", "x", "https://example.com/s", ""])), _ => json!({"Cache": {"category": if r.chance(1, 8) { gen_src(r, d - 1) } else { json!(*r.pick(CATS)) }, "key": if r.chance(1, 4) { gen_src(r, d - 1) } else { json!(*r.pick(&["x", "y", "https://example.com/s"])) }, "value": gen_src(r, d - 1)}}) } }
fn wrappers(cx: &mut Cx, d: &std::path::Path) {
    let s = serve(); let b = s.base.clone();
    for _ in 0..180 * cx.scale {
        let r = &mut cx.rng; let mut m: M = BTreeMap::new(); let no = r.chance(1, 3);
        for _ in 0..r.below(4) { let k = if r.chance(1, 2) { format!("{b}/{}", r.below(9)) } else { "x".into() }; let v = match r.below(4) { 0 => None, 1 => Some("not a url".to_string()), _ => Some(format!("https://example.com/cached{}", r.below(3))) }; m.insert(((if no { "c" } else { *r.pick(CATS) }).to_string(), k), v); }
        let steps: Vec<(bool, bool, bool, String, Value)> = (0..1 + r.below(5)).map(|_| { let a = r.chance(2, 3); (r.chance(3, 4), r.chance(3, 4), a, format!("{b}/{}", r.below(9)), if a { if r.chance(1, 3) { redirect(r) } else { gen_act(r, 2, &b) } } else { gen_src(r, 3) }) }).collect();
        let label = format!("cache {}{m:?} steps {:?}", if no { "(refusing writes outside category c) " } else { "" }, steps.iter().map(|(a, b, _, u, v)| format!("read={a} write={b} {u} {}", show(v))).collect::<Vec<_>>()).replace(&b, "http://server");
        let start = m.clone();
        cx.case("wrappers", label, || {
            let file = d.join("refusing.sqlite"); if no { std::fs::write(&file, include_bytes!("refusing.sqlite")).unwrap(); }
            let cache = if no { Cache::from(CachePath::from(file.to_str().unwrap())) } else { Cache::from(CachePath::Memory) }; for ((c, k), v) in &start { cache.write(c, k, v.as_deref()).map_err(|e| ("written".to_string(), e.to_string()))?; }
            for (i, (rd, wr, is_act, u, v)) in steps.iter().enumerate() {
                let at = |w: String| format!("step {i}: {}", w.replace(&b, "http://server"));
                let mut url = BetterUrl::parse(u).unwrap(); let mut sc = JobScratchpad::default(); let mut params = Params::default(); params.read_cache = *rd; params.write_cache = *wr;
                let (ctx, job, com) = (TaskContext::default(), JobContext::default(), Commons::default()); s.asked.lock().unwrap().clear(); let mut asks = vec![];
                let (want, got) = if *is_act {
                    let mut wu = url.to_string(); let ok = act(v, &mut wu, &mut m, *rd, *wr, no, &b, &mut asks);
                    let mp: Mapper = crate::de1(v); let r = mp.apply(&mut TaskState { url: &mut url, scratchpad: &mut sc, common_args: None, context: &ctx, job_context: &job, params: &params, commons: &com, cache: &cache });
                    (format!("ok {ok} url {wu}"), format!("ok {} url {}", r.is_ok(), url.as_str()))
                } else {
                    let w = src(v, &mut m, *rd, *wr, no); let ss: Option<StringSource> = crate::de1(v); let view = TaskStateView { url: &url, scratchpad: &sc, common_args: None, context: &ctx, job_context: &job, params: &params, commons: &com, cache: &cache };
                    let g = match &ss { None => Ok(None), Some(x) => x.get(&view).map(|x| x.map(|x| x.into_owned())).map_err(|_| ()) };
                    (format!("{w:?}"), format!("{g:?}"))
                };
                if want != got { return Err((at(want), at(got))) }
                let asked = s.asked.lock().unwrap().clone(); if asks != asked { return Err((at(format!("requests {asks:?}")), at(format!("requests {asked:?}")))) }
                let mut keys: Vec<(String, String)> = m.keys().cloned().collect(); for c in CATS { for k in ["x", "y", "https://example.com/s", ""] { keys.push((c.to_string(), k.to_string())) } for n in 0..9 { keys.push((c.to_string(), format!("{b}/{n}"))) } keys.push((c.to_string(), url.to_string())) }
                for (c, k) in keys { let w = m.get(&(c.clone(), k.clone())).cloned(); let g = cache.read(&c, &k).map_err(|e| ("readable".to_string(), e.to_string()))?; if w != g { return Err((at(format!("cached under {c:?}/{k:?}: {w:?}")), at(format!("cached under {c:?}/{k:?}: {g:?}")))) } }
            }
            Ok(())
        });
    }
}
