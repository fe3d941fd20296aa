//! P22: requests and commands are carried out as configured.
use crate::{Cx, Rng};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use url_cleaner::glue::*;
use url_cleaner::types::*;
/// What a server was asked: method, target, its headers (lower case names, in order) and body.
#[derive(Debug, Clone, PartialEq)] struct Asked { who: &'static str, method: String, target: String, headers: Vec<(String, String)>, body: Vec<u8> }
type Log = Arc<Mutex<Vec<Asked>>>;
fn serve(who: &'static str, log: &Log) -> String {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); let base = format!("http://127.0.0.1:{}", l.local_addr().unwrap().port()); let log = log.clone();
    std::thread::spawn(move || for s in l.incoming() { let Ok(mut s) = s else { continue }; let log = log.clone(); std::thread::spawn(move || {
        let mut buf = vec![]; let mut t = [0u8; 4096]; let at = loop { if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p } match s.read(&mut t) { Ok(0) | Err(_) => return, Ok(n) => buf.extend_from_slice(&t[..n]) } };
        let head = String::from_utf8_lossy(&buf[..at]).to_string(); let mut first = head.lines().next().unwrap_or("").split(' '); let (method, target) = (first.next().unwrap_or("").to_string(), first.next().unwrap_or("").to_string());
        let headers: Vec<(String, String)> = head.lines().skip(1).filter_map(|l| l.split_once(": ")).map(|(a, b)| (a.to_ascii_lowercase(), b.to_string())).collect();
        let len: usize = headers.iter().find(|h| h.0 == "content-length").and_then(|h| h.1.parse().ok()).unwrap_or(0); let mut body = buf[at + 4..].to_vec();
        while body.len() < len { match s.read(&mut t) { Ok(0) | Err(_) => return, Ok(n) => body.extend_from_slice(&t[..n]) } }
        let path = path_of(&target); let a = answer(&path); log.lock().unwrap().push(Asked { who, method: method.clone(), target, headers, body });
        let mut o = format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\nConnection: close\r\n", a.status, a.body.len()); for (k, v) in &a.headers { o.push_str(&format!("{k}: {v}\r\n")); } o.push_str("\r\n");
        let _ = s.write_all(o.as_bytes()); if method != "HEAD" { let _ = s.write_all(&a.body); }
    }); });
    base
}
/// The path and query of a request's target.
fn path_of(t: &str) -> String { let t = t.strip_prefix("http://").map(|x| x.find('/').map_or("/", |i| &x[i..])).unwrap_or(t); t.split('?').next().unwrap().to_string() }
struct Ans { status: u16, headers: Vec<(String, String)>, body: Vec<u8> }
fn answer(p: &str) -> Ans {
    let h = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    if let Some(n) = p.strip_prefix("/r/").and_then(|x| x.parse::<usize>().ok()) { if n > 0 { return Ans { status: 302, headers: h(&[("Location", &format!("/r/{}", n - 1)), ("Set-Cookie", "hop=1"), ("X-One", "redirecting")]), body: b"hop".to_vec() } } }
    Ans { status: if p == "/missing" { 404 } else { 200 }, headers: h(&[("X-One", "1"), ("X-Two", "  two words "), ("X-Dup", "first"), ("X-Dup", "second"), ("X-Raw", "\u{e9}"), ("Set-Cookie", "k=1; Path=/"), ("Set-Cookie", "k=2"), ("Set-Cookie", "K=3"), ("Set-Cookie", "other=o=p"), ("Set-Cookie", "empty=")]), body: format!("body of {p} é\n").into_bytes() }
}
/// A text source: its value, nothing, or an error.
fn src(v: &Value, url: &url::Url) -> Result<Option<String>, ()> { match v { Value::Null => Ok(None), Value::String(s) => Ok(Some(s.clone())), _ => { let (k, x) = v.as_object().unwrap().iter().next().unwrap(); match k.as_str() {
    "Error" => Err(()), "Part" => Ok(match x.as_str().unwrap() { "Whole" => Some(url.to_string()), "Query" => url.query().map(|x| x.to_string()), "Fragment" => url.fragment().map(|x| x.to_string()), p => panic!("{p}") }),
    "Join" => { let mut o = Some(String::new()); for y in x["sources"].as_array().unwrap() { match src(y, url)? { Some(t) => if let Some(o) = &mut o { o.push_str(&t) }, None => { o = None; break } } } Ok(o) }, k => panic!("{k}") } } } }
fn need(v: &Value, url: &url::Url) -> Result<String, ()> { src(v, url)?.ok_or(()) }
fn leaf(r: &mut Rng) -> Value { match r.below(14) { 0 => Value::Null, 1 => if r.chance(1, 3) { json!({"Error": "no"}) } else { json!("") }, 2 => json!({"Part": "Query"}), 3 => json!({"Part": "Fragment"}), 4 => json!({"Join": {"sources": ["p", if r.chance(1, 5) { Value::Null } else { json!("") }, "q&="]}}), n => json!(["v", "a b", "é+&=?%41", "two words ", "x", "\"q\"", "1", "日本", "k=v"][n - 5]) } }
fn body_leaf(r: &mut Rng) -> Value { if r.chance(1, 4) { json!({"Part": "Query"}) } else { let n = r.below(6); json!(["line\nline\r\n", "é", "", "x\u{0}y", "{}", "plain"][n]) } }
pub fn gen_json(r: &mut Rng, d: usize) -> Value { match r.below(if d == 0 { 6 } else { 9 }) { 0 => json!({"Null": null}), 1 => json!({"Bool": r.chance(1, 2)}), 2 => json!(r.range(-3, 1 << 40)), 3 => json!({"Number": 1.5}), 4 => json!({"String": match r.below(6) { 0 => Value::Null, 1 => json!({"Part": "Query"}), 2 => leaf(r), _ => json!({"Part": "Whole"}) }}), 5 => json!("text é\""),
    6 => { let n = r.below(4); json!({"Array": (0..n).map(|_| gen_json(r, d - 1)).collect::<Vec<_>>()}) }, 7 => { let mut m = Map::new(); for _ in 0..r.below(4) { m.insert(r.pick(&["a", "b", "é", "", "c d"]).to_string(), gen_json(r, d - 1)); } json!({"Object": m}) },
    _ => match r.below(4) { 0 => Value::Null, 1 => json!(true), 2 => json!([1, null, "x", [false]]), _ => json!({"String": "plain"}) } } }
fn mean_json(v: &Value, url: &url::Url) -> Result<Value, ()> { match v { Value::Object(m) => { let (k, x) = m.iter().next().unwrap(); match k.as_str() { "Null" => Ok(Value::Null), "Bool" | "Number" => Ok(x.clone()), "String" => Ok(Value::String(need(x, url)?)),
    "Array" => x.as_array().unwrap().iter().map(|y| mean_json(y, url)).collect::<Result<Vec<_>, _>>().map(Value::Array), _ => { let mut o = Map::new(); for (k, y) in x.as_object().unwrap() { o.insert(k.clone(), mean_json(y, url)?); } Ok(Value::Object(o)) } } },
    Value::Array(a) => a.iter().map(|y| mean_json(y, url)).collect::<Result<Vec<_>, _>>().map(Value::Array), x => Ok(x.clone()) } }
#[derive(Debug, Clone, PartialEq)] enum Wb { No, Text(Vec<u8>), Form(BTreeMap<String, String>), Json(Value) }
fn b64(t: &str) -> String { let c = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; let mut o = String::new(); for g in t.as_bytes().chunks(3) { let n = (g[0] as u32) << 16 | (*g.get(1).unwrap_or(&0) as u32) << 8 | *g.get(2).unwrap_or(&0) as u32; for i in 0..4 { if i <= g.len() { o.push(c[(n >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } } } o }
/// Overlay of a request's client overrides.
fn overlay(c: &Value, d: &Value) -> Value {
    let mut o = c.clone(); if d.is_null() { return o }
    for (k, t) in [("redirect_policy", "redirect_policy"), ("https_only", "https_only"), ("set_proxies", "proxies"), ("no_proxy", "no_proxy"), ("referer", "referer")] { if !d[k].is_null() { o[t] = d[k].clone() } }
    if let Some(a) = d["add_proxies"].as_array() { let mut p = o["proxies"].as_array().cloned().unwrap_or_default(); p.extend(a.iter().cloned()); o["proxies"] = Value::Array(p) }
    if let Some(h) = d["add_default_headers"].as_object() { let mut p = o["default_headers"].as_object().cloned().unwrap_or_default(); for (k, v) in h { p.insert(k.clone(), v.clone()); } o["default_headers"] = Value::Object(p) }
    o
}
pub fn gen_client(r: &mut Rng, diff: bool, px: &[String; 2]) -> Value {
    let mut o = json!({}); let hd = if diff { "add_default_headers" } else { "default_headers" };
    if r.chance(1, 2) { let mut m = Map::new(); for k in ["x-a", "x-d", "x-e"] { if r.chance(1, 2) { m.insert(k.into(), json!(if diff { "by override" } else { "by default" })); } } o[hd] = Value::Object(m) }
    if r.chance(1, 3) { o["redirect_policy"] = if r.chance(1, 3) { json!("None") } else { json!({"Limited": r.below(5)}) } }
    if r.chance(1, 12) { o["https_only"] = json!(true) } else if diff && r.chance(1, 3) { o["https_only"] = json!(false) }
    if r.chance(1, 4) { o["referer"] = json!(r.chance(1, 2)) }
    if r.chance(1, 4) { o["no_proxy"] = json!(r.chance(1, 2)) }
    let mut ps = |r: &mut Rng| { let n = r.below(3); Value::Array((0..n).map(|_| { let i = r.below(2); match r.below(5) { 0 => json!(px[i]), 1 => json!({"url": px[i], "mode": "Https"}), 2 => json!({"url": px[i], "mode": "Http", "auth": {"Basic": {"username": "u", "password": "p:w"}}}), 3 => json!({"url": px[i], "auth": {"Custom": "token 1"}}), _ => json!({"url": px[i], "mode": "All"}) } }).collect()) };
    if diff { if r.chance(1, 5) { o["set_proxies"] = ps(r) } if r.chance(1, 5) { o["add_proxies"] = ps(r) } } else if r.chance(1, 3) { o["proxies"] = ps(r) }
    // an override that gives one thing only
    if diff && r.chance(1, 3) { let one = [("add_proxies", json!([px[r.below(2)]])), ("set_proxies", json!([px[r.below(2)]])), ("no_proxy", json!(true)), ("https_only", json!(true)), ("referer", json!(true)), ("redirect_policy", json!({"Limited": 2})), ("add_default_headers", json!({"x-d": "alone"}))][r.below(7)].clone(); o = json!({one.0: one.1}) }
    o
}
/// The requests one configuration causes, in order (who is asked, method, target, the x-, referer and proxy headers, the body), and the result.
type Want = (Vec<(String, String, String, BTreeMap<String, String>, Wb)>, Result<String, ()>);
fn mean(q: &Value, client: &Value, url: &url::Url, px: &[String; 2]) -> Want {
    let no = |l| (l, Err(())); let c = overlay(client, &q["client_config_diff"]);
    let Ok(t) = (match q.get("url") { None => Ok(url.to_string()), Some(v) => need(v, url) }) else { return no(vec![]) }; let Ok(mut u) = url::Url::parse(&t) else { return no(vec![]) };
    let mut hs: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in q["headers"].as_object().into_iter().flatten() { match src(v, url) { Err(()) => return no(vec![]), Ok(None) => {}, Ok(Some(t)) => { if k.contains(' ') || t.contains(['\n', '\u{0}']) { return no(vec![]) } hs.insert(k.to_ascii_lowercase(), t); } } }
    for (k, v) in c["default_headers"].as_object().into_iter().flatten() { hs.entry(k.clone()).or_insert(v.as_str().unwrap().to_string()); }
    let mut body = match q["body"].as_object().and_then(|m| m.iter().next()) { None => Wb::No, Some((k, x)) => match k.as_str() {
        "Text" => match need(x, url) { Ok(t) => Wb::Text(t.into_bytes()), Err(()) => return no(vec![]) }, "Json" => match mean_json(x, url) { Ok(v) => Wb::Json(v), Err(()) => return no(vec![]) },
        _ => { let mut m = BTreeMap::new(); for (k, v) in x.as_object().unwrap() { match src(v, url) { Err(()) => return no(vec![]), Ok(None) => {}, Ok(Some(t)) => { m.insert(k.clone(), t); } } } Wb::Form(m) } } };
    if c["https_only"] == true || u.scheme() != "http" { return no(vec![]) }
    let proxy = if c["no_proxy"] == true { None } else { c["proxies"].as_array().into_iter().flatten().find(|p| p["mode"] != "Https").cloned() };
    let mut method = q["method"].as_str().unwrap_or("GET").to_string(); let mut list = vec![]; let policy = &c["redirect_policy"]; let limit = if policy == "None" { None } else { Some(policy["Limited"].as_u64().unwrap_or(10) as usize) };
    loop {
        let mut h = hs.clone(); let (who, target) = match &proxy { None => ("server", u[url::Position::BeforePath..url::Position::AfterQuery].to_string()), Some(p) => { let pu = p.as_str().unwrap_or_else(|| p["url"].as_str().unwrap());
            if let Some(b) = p["auth"]["Basic"].as_object() { h.insert("proxy-authorization".into(), format!("Basic {}", b64(&format!("{}:{}", b["username"].as_str().unwrap(), b["password"].as_str().unwrap())))); } if let Some(x) = p["auth"]["Custom"].as_str() { h.insert("proxy-authorization".into(), x.into()); }
            (if *pu == px[0] { "proxy 0" } else { "proxy 1" }, u[..url::Position::AfterQuery].to_string()) } };
        list.push((who.to_string(), method.clone(), target, h, body.clone()));
        let a = answer(u.path()); if a.status == 302 { if let Some(n) = limit { if list.len() >= n { return no(list) }
            let from = u.clone(); u = u.join(&a.headers[0].1).unwrap(); if method != "GET" && method != "HEAD" { method = "GET".into(); } body = Wb::No;
            if c["referer"] == true { let mut f = from; f.set_fragment(None); hs.insert("referer".into(), f.to_string()); } continue } }
        let h = |n: &str| a.headers.iter().find(|x| x.0.eq_ignore_ascii_case(n)).map(|x| x.1.trim().to_string()); let rh = &q["response_handler"];
        let got = match rh { Value::Null => Ok(if method == "HEAD" { String::new() } else { String::from_utf8(a.body).unwrap() }), Value::String(s) if s == "Body" => Ok(if method == "HEAD" { String::new() } else { String::from_utf8(a.body).unwrap() }), Value::String(_) => Ok(u.to_string()),
            _ => { let (k, x) = rh.as_object().unwrap().iter().next().unwrap(); need(x, url).and_then(|n| if k == "Header" { h(&n).filter(|x| x.is_ascii()).ok_or(()) } else { a.headers.iter().filter(|x| x.0 == "Set-Cookie").filter_map(|x| x.1.split(';').next().unwrap().split_once('=')).find(|x| x.0 == n).map(|x| x.1.to_string()).ok_or(()) }) } };
        return (list, got);
    }
}
pub fn gen_request(r: &mut Rng, base: &str, px: &[String; 2]) -> Value {
    let mut q = json!({}); let redirecting = r.chance(1, 3);
    if redirecting { q["url"] = json!({"Join": {"sources": [base, format!("/r/{}", r.below(6))]}}) } else if r.chance(1, 2) { q["url"] = match r.below(8) { 0 => Value::Null, 1 => json!("not a url"), 2 => json!({"Error": "no"}), _ => json!({"Join": {"sources": [base, *r.pick(&["/p?q=1&z", "/missing", "/é b", "/", "/p#frag"])]}}) } }
    if r.chance(1, 2) { q["method"] = json!(*r.pick(if redirecting { &["GET", "HEAD", "POST"] } else { &["POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "FOO"] })) }
    if r.chance(2, 3) { let mut m = Map::new(); for k in ["x-a", "X-B", "x-c", "x-d"] { if r.chance(1, 2) { m.insert(k.into(), leaf(r)); } } if r.chance(1, 15) { m.insert("x bad".into(), leaf(r)); } if r.chance(1, 15) { m.insert("x-nl".into(), json!("a\nb")); } q["headers"] = Value::Object(m) }
    if r.chance(1, 2) { q["body"] = match r.below(3) { 0 => json!({"Text": if r.chance(1, 6) { leaf(r) } else { body_leaf(r) }}), 1 => { let mut m = Map::new(); for k in ["a", "b c", "é", "", "d"] { if r.chance(1, 2) { m.insert(k.into(), leaf(r)); } } json!({"Form": m}) }, _ => json!({"Json": gen_json(r, 2)}) } }
    match r.below(8) { 0 | 1 => {}, 2 => q["response_handler"] = json!("Body"), 3 => q["response_handler"] = json!("Url"), 4 | 5 => q["response_handler"] = json!({"Header": if r.chance(1, 8) { leaf(r) } else { json!(*r.pick(&["x-one", "X-Two", "X-DUP", "x-none", "x-raw", "location"])) }}), _ => q["response_handler"] = json!({"Cookie": if r.chance(1, 8) { leaf(r) } else { json!(*r.pick(&["k", "K", "other", "empty", "none", "hop"])) }}) }
    if r.chance(1, 2) { q["client_config_diff"] = gen_client(r, true, px) }
    q
}
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn p22(cx: &mut Cx) {
    cx.rule = "random request configurations (method, present, absent and failing headers, text, form and JSON bodies, redirect chains, client settings and overrides, proxies, every response handler) sent to loopback servers and proxies that record what they are asked; random commands run with real programs in a scratch folder (arguments, folder, environment, input up to 400 kB, output, exit codes); compared with independent definitions".into();
    let d = std::env::current_dir().unwrap().join(format!("http22-{}", std::process::id())); std::fs::create_dir_all(d.join("sub dir")).unwrap(); let d = Scratch(d);
    requests(cx); commands(cx, &d.0);
}
fn requests(cx: &mut Cx) {
    let log: Log = Default::default(); let base = serve("server", &log); let px = [serve("proxy 0", &log), serve("proxy 1", &log)];
    let (com, jc, ctx, sc) = (Commons::default(), JobContext::default(), TaskContext::default(), JobScratchpad::default()); let cache = Cache::from(CachePath::Memory);
    for n in 0..360 * cx.scale {
        let r = &mut cx.rng; let client = if r.chance(1, 2) { gen_client(r, false, &px) } else { json!({}) }; let q = gen_request(r, &base, &px); let start = format!("{base}/{}", r.pick(&["p?query=é b", "p", "r/2#f", "x?a=1#frag"])); let twice = n % 5 == 0;
        let label = format!("client {client} request {q} on {start}").replace(&base, "http://server").replace(&px[0], "http://proxy0").replace(&px[1], "http://proxy1");
        let key = if q["body"].is_object() { "request/body" } else if q["response_handler"].is_object() { "request/handler" } else { "request" };
        cx.case(key, label, || {
            let url = BetterUrl::parse(&start).unwrap(); let u = url::Url::parse(&start).unwrap(); let mut params = Params::default(); params.http_client_config = crate::de1(&client); let before = params.http_client_config.clone();
            let s: StringSource = crate::de1(&json!({"HttpRequest": q})); let view = TaskStateView { url: &url, scratchpad: &sc, common_args: None, context: &ctx, job_context: &jc, params: &params, commons: &com, cache: &cache };
            for _ in 0..if twice { 2 } else { 1 } {
                let (want, res) = mean(&q, &client, &u, &px); log.lock().unwrap().clear();
                let got = s.get(&view).map(|x| x.unwrap().into_owned()).map_err(|_| ()); let asked = log.lock().unwrap().clone();
                let seen: Vec<_> = asked.iter().zip(want.iter().map(|w| Some(w)).chain(std::iter::repeat(None))).map(|(a, w)| {
                    let form = |t: &str| a.headers.iter().any(|h| h.0 == "content-type" && h.1 == t);
                    let b = match w.map(|w| &w.4) { Some(Wb::Form(_)) if form("application/x-www-form-urlencoded") => { let v: Vec<(String, String)> = url::form_urlencoded::parse(&a.body).into_owned().collect(); let m: BTreeMap<_, _> = v.iter().cloned().collect(); if v.len() == m.len() { Wb::Form(m) } else { Wb::Text(a.body.clone()) } },
                        Some(Wb::Json(_)) if form("application/json") => serde_json::from_slice(&a.body).map_or(Wb::Text(a.body.clone()), Wb::Json), Some(Wb::Text(_)) => Wb::Text(a.body.clone()), _ => if a.body.is_empty() { Wb::No } else { Wb::Text(a.body.clone()) } };
                    let mut hs: BTreeMap<String, String> = BTreeMap::new(); for (k, v) in a.headers.iter().filter(|h| h.0.starts_with("x-") || h.0 == "referer" || h.0 == "proxy-authorization") { hs.entry(k.clone()).and_modify(|x| { x.push_str(" AND "); x.push_str(v) }).or_insert(v.clone()); }
                    (a.who.to_string(), a.method.clone(), a.target.clone(), hs, b) }).collect();
                if want != seen { return Err((format!("asked {want:?}"), format!("asked {seen:?}"))) }
                if res != got { return Err((format!("result {res:?}"), format!("result {got:?}"))) }
                if params.http_client_config != before { return Err(("the client settings stay as they are".into(), format!("{:?}", params.http_client_config))) }
            }
            Ok(())
        });
    }
}
// ---- commands
const PROBE: &str = r#"for a in "$@"; do printf '[%s]' "$a"; done; printf '|%s|%s|%s|' "${PWD##*/}" "${XA-unset}" "${XB-unset}"; echo noise >&2"#;
fn commands(cx: &mut Cx, d: &std::path::Path) {
    let (com, jc, ctx, sc, params) = (Commons::default(), JobContext::default(), TaskContext::default(), JobScratchpad::default(), Params::default()); let cache = Cache::from(CachePath::Memory);
    let here = d.file_name().unwrap().to_str().unwrap().to_string(); let root = std::env::current_dir().unwrap().file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default(); let _ = here;
    for n in 0..260 * cx.scale {
        let r = &mut cx.rng; let fail = r.chance(1, 4); let mut lf = |r: &mut Rng| loop { let v = leaf(r); if fail || matches!(src(&v, &url::Url::parse("https://e.com/?q#f").unwrap()), Ok(Some(_))) { break v } };
        let args: Vec<Value> = (0..r.below(4)).map(|_| lf(r)).collect(); let mut envs = Map::new(); for k in ["XA", "XB"] { if r.chance(1, 2) { envs.insert(k.into(), if r.chance(1, 3) { Value::Null } else { lf(r) }); } }
        let dir = r.chance(1, 2); let long = n % 20 == 3; let stdin = if long { Some(json!("0123456789é\n".repeat(33_000))) } else if r.chance(1, 2) { Some(match if r.chance(1, 6) { leaf(r) } else { body_leaf(r) } { Value::Null => json!({"Part": "Fragment"}), v => v }) } else { None };
        let code = r.below(3) as i32; let tail = match r.below(8) { 0 => "printf '\\377'", 1 => "printf '\\n\\r\\n\\r\\n'", 2 => "printf '\\n \\n'", _ => "" };
        let mut a = vec![json!("-c"), json!(format!("{PROBE}; {}{tail}\nexit {code}", if stdin.is_some() { "cat; " } else { "" })), json!("sh")]; a.extend(args.iter().cloned());
        let mut c = json!({"program": "sh", "args": a, "envs": envs}); if dir { c["current_dir"] = json!(d.join("sub dir")) } if let Some(x) = &stdin { c["stdin"] = x.clone() }
        let start = if r.chance(1, 2) { "https://e.com/?q=é b#f" } else { "https://e.com/" }; let label = format!("command {} on {start}", if long { "with a long input".to_string() } else { c.to_string().replace(d.to_str().unwrap(), "") });
        cx.case("command", label, || {
            let url = BetterUrl::parse(start).unwrap(); let u = url::Url::parse(start).unwrap(); let view = TaskStateView { url: &url, scratchpad: &sc, common_args: None, context: &ctx, job_context: &jc, params: &params, commons: &com, cache: &cache };
            let want = (|| { let mut o = vec![]; for x in &args { o.extend(format!("[{}]", need(x, &u)?).into_bytes()) } let e = |k: &str| -> Result<String, ()> { Ok(match envs.get(k) { None => None, Some(v) => src(v, &u)? }.unwrap_or("unset".into())) };
                o.extend(format!("|{}|{}|{}|", if dir { "sub dir" } else { &root }, e("XA")?, e("XB")?).into_bytes()); if let Some(x) = &stdin { o.extend(need(x, &u)?.into_bytes()) }
                o.extend_from_slice(match tail { "" => b"".as_slice(), "printf '\\377'" => b"\xff", "printf '\\n\\r\\n\\r\\n'" => b"\n\r\n\r\n", _ => b"\n \n" }); String::from_utf8(o).map_err(|_| ()) })();
            let s: StringSource = crate::de1(&json!({"CommandOutput": c})); let got = s.get(&view).map(|x| x.unwrap().into_owned()).map_err(|_| ());
            let cut = |x: &Result<String, ()>| format!("{:?}", x.as_ref().map(|t| if t.len() > 300 { format!("{} characters, {}..", t.len(), t.chars().take(60).collect::<String>()) } else { t.clone() }));
            if want != got { return Err((cut(&want), cut(&got))) }
            if stdin.is_none() { let mut c = c.clone(); c["args"][1] = json!(format!("exit {code}")); let c: CommandConfig = crate::de1(&c); let w = (|| { for x in &args { need(x, &u).ok()?; } for v in envs.values() { src(v, &u).ok()?; } Some(code) })(); let g = c.exit_code(&view).ok(); if w != g { return Err((format!("exit {w:?}"), format!("exit {g:?}"))) } }
            Ok(())
        });
    }
    for (t, w) in [("https://e.com/a\\n", Some("https://e.com/a")), ("https://e.com/a\\r\\n\\n\\r", Some("https://e.com/a")), ("https://e.com/a b", Some("https://e.com/a%20b")), ("nothing", None), ("", None), ("\\nhttps://e.com/\\n", Some("https://e.com/"))] { cx.case("command/url", format!("printf {t:?}"), || {
        let url = BetterUrl::parse("https://e.com/").unwrap(); let view = TaskStateView { url: &url, scratchpad: &sc, common_args: None, context: &ctx, job_context: &jc, params: &params, commons: &com, cache: &cache };
        let c: CommandConfig = crate::de1(&json!({"program": "printf", "args": [t]})); crate::same(w.map(|x| x.to_string()), c.get_url(&view).ok().map(|x| x.to_string())) }) }
    for (p, w) in [("sh", true), ("/bin/sh", true), ("vx-no-such-program", false), ("/no/such/program", false)] { cx.case("command/exists", p, || { let c = CommandConfig::from(p); crate::same((w, p.to_string(), 0, None, 0, None), (c.exists(), c.program.clone(), c.args.len(), c.current_dir.clone(), c.envs.len(), c.stdin.clone())) });
        cx.case("command/text", p, || { let url = BetterUrl::parse("https://e.com/").unwrap(); let view = TaskStateView { url: &url, scratchpad: &sc, common_args: None, context: &ctx, job_context: &jc, params: &params, commons: &com, cache: &cache }; let c: CommandConfig = crate::de1(&json!({"program": p, "args": ["-c", "kill -9 $$"]})); crate::same((None, if w { Ok(String::new()) } else { Err(()) }), (c.exit_code(&view).ok(), c.output(&view).map_err(|_| ()))) }) }
}
