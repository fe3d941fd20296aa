//! P24: every written form of a configuration value means what is documented, and writing a value and reading it again gives the same value.
use crate::{gen_, http22, parts, progs::{self, G}, Cx, Rng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value as V};
use std::fmt::Debug;
use std::str::FromStr;
use url_cleaner::glue::*;
use url_cleaner::testing::Tests;
use url_cleaner::types::*;
trait Cfg: DeserializeOwned + Serialize + PartialEq + Debug {}
impl<T: DeserializeOwned + Serialize + PartialEq + Debug> Cfg for T {}
fn r<T: DeserializeOwned>(v: &V) -> Result<T, String> { serde_json::from_value(v.clone()).map_err(|e| e.to_string()) }
fn ok<T: DeserializeOwned>(v: &V) -> Result<T, (String, String)> { r(v).map_err(|e| ("is read".to_string(), e)) }
/// Reads, writes (as a value and as text) and reads again.
fn back<T: Cfg>(cx: &mut Cx, v: &V) {
    cx.case(&format!("written and read back ({})", short::<T>()), format!("{v}"), || {
        let a: T = ok(v)?; let w = serde_json::to_value(&a).map_err(|e| ("is written".to_string(), e.to_string()))?;
        crate::same(&a, &r::<T>(&w).map_err(|e| (format!("{w} is read"), e))?)?;
        let t = serde_json::to_string(&a).unwrap(); crate::same(&a, &serde_json::from_str::<T>(&t).map_err(|e| (format!("{t} is read"), e.to_string()))?)?;
        let p = serde_json::to_string_pretty(&a).unwrap(); crate::same(&a, &serde_json::from_str::<T>(&p).map_err(|e| (format!("{p} is read"), e.to_string()))?)
    });
}
fn short<T>() -> String { std::any::type_name::<T>().rsplit("::").next().unwrap().trim_end_matches('>').to_string() }
/// Two texts for the same value.
fn alike<T: Cfg>(cx: &mut Cx, a: V, b: V) { cx.case("two forms", format!("{}: {a} and {b}", short::<T>()), || crate::same(ok::<T>(&a)?, ok::<T>(&b)?)); back::<T>(cx, &a); back::<T>(cx, &b); }
fn means<T: Cfg>(cx: &mut Cx, a: V, m: T) { cx.case("meaning", format!("{}: {a}", short::<T>()), || crate::same(&m, &ok::<T>(&a)?)); back::<T>(cx, &a); }
fn refused<T: Cfg>(cx: &mut Cx, a: V) { cx.case("refused", format!("{}: {a}", short::<T>()), || if let Ok(x) = r::<T>(&a) { Err(("an error".into(), format!("{x:?}"))) } else { Ok(()) }); }
/// The same object with a field left out and given with the documented default, and with other values for it.
fn left_out<T: Cfg>(cx: &mut Cx, base: V, wrap: Option<&str>, defaults: &[(&str, V, Vec<V>)]) {
    let put = |o: V| match wrap { Some(k) => json!({k: o}), None => o };
    for (f, d, others) in defaults {
        let mut g = base.clone(); g[*f] = d.clone(); alike::<T>(cx, put(base.clone()), put(g));
        for x in others { let mut g = base.clone(); g[*f] = x.clone(); let (a, b) = (put(base.clone()), put(g)); back::<T>(cx, &b);
            cx.case("kept apart", format!("{}: {a} and {b}", short::<T>()), || if ok::<T>(&a)? == ok::<T>(&b)? { Err(("two values".into(), "one value".into())) } else { Ok(()) }); }
    }
    // the written form leaves out what has its default, and nothing else
    for n in 0..1usize << defaults.len().min(6) {
        let mut g = base.clone(); for (i, (f, _, o)) in defaults.iter().enumerate().take(6) { if n >> i & 1 == 1 { if let Some(x) = o.first() { g[*f] = x.clone(); } } } back::<T>(cx, &put(g));
    }
}
pub fn p24(cx: &mut Cx) {
    cx.rule = "short and long forms of every value that has both, left-out fields against documented defaults, wrong words, and read-write-read of random rules, mappers, conditions, text sources, modifications, matchers, locations, requests, commands, clients, parameters, overrides, tests and whole configurations, plus the default configuration".into();
    words(cx); shorts(cx); fields(cx); values(cx); progs_(cx); whole(cx);
}
fn unit_words<T: Cfg>(cx: &mut Cx, ws: &[&str], all: &[T]) {
    for (w, x) in ws.iter().zip(all) { cx.case("word", format!("{}: {w}", short::<T>()), || { crate::same(x, &ok::<T>(&json!(w))?)?; crate::same(x, &ok::<T>(&serde_json::to_value(x).unwrap())?) }); back::<T>(cx, &json!(w)); }
    for w in ws { for bad in [w.to_lowercase(), format!("{w} "), format!("{w}x"), w[1..].to_string(), String::new()] { if !ws.contains(&&*bad) { refused::<T>(cx, json!(bad)); } } }
}
fn words(cx: &mut Cx) {
    unit_words(cx, &["Params", "Common", "Scratchpad"], &[FlagType::Params, FlagType::Common, FlagType::Scratchpad]);
    unit_words(cx, &["Params", "JobContext", "TaskContext", "Common", "Scratchpad", "Env"], &[VarType::Params, VarType::JobContext, VarType::TaskContext, VarType::Common, VarType::Scratchpad, VarType::Env]);
    unit_words(cx, &["Http", "Https", "All"], &[ProxyMode::Http, ProxyMode::Https, ProxyMode::All]);
    unit_words(cx, &["Pass", "Fail", "Error"], &[IfError::Pass, IfError::Fail, IfError::Error]);
    unit_words(cx, &["Standard", "UrlSafe"], &[Base64Alphabet::Standard, Base64Alphabet::UrlSafe]);
    let mods: Vec<StringModification> = vec![StringModification::None, StringModification::Lowercase, StringModification::Uppercase, StringModification::UrlDecode, StringModification::GetJsStringLiteralPrefix, StringModification::UnescapeHtmlText];
    for (w, m) in [("None", 0), ("Lowercase", 1), ("Uppercase", 2), ("UrlDecode", 3), ("GetJsStringLiteralPrefix", 4), ("UnescapeHtmlText", 5)] { means(cx, json!(w), mods[m].clone()); alike::<StringModification>(cx, json!(w), json!({w: null}));
        cx.case("parsed", w, || crate::same(Some(&mods[m]), StringModification::from_str(w).ok().as_ref())); }
    for (w, m) in [("Base64Decode", StringModification::Base64Decode(Default::default())), ("Base64Encode", StringModification::Base64Encode(Default::default())), ("UrlEncode", StringModification::UrlEncode(Default::default()))] {
        means(cx, json!(w), m.clone()); cx.case("parsed", w, || crate::same(Some(&m), StringModification::from_str(w).ok().as_ref())); }
    for w in ["lowercase", "Lower", "Set", "Append", "", "None "] { refused::<StringModification>(cx, json!(w)); cx.case("parsed", w, || crate::same(true, StringModification::from_str(w).is_err())); }
    let p = ["Scheme", "Username", "Password", "Host", "Subdomain", "RegDomain", "Domain", "DomainMiddle", "DomainSuffix", "Port", "Path", "Query", "Fragment", "Whole"];
    for w in p { back::<UrlPart>(cx, &json!(w)); alike::<UrlPart>(cx, json!(w), json!({w: null})); refused::<UrlPart>(cx, json!(w.to_lowercase())); refused::<UrlPart>(cx, json!({w: "x"})); }
    for i in 0..p.len() { for j in 0..i { cx.case("kept apart", format!("UrlPart: {} and {}", p[i], p[j]), || if ok::<UrlPart>(&json!(p[i]))? == ok::<UrlPart>(&json!(p[j]))? { Err(("two values".into(), "one value".into())) } else { Ok(()) }); } }
    for x in [Ok(true), Ok(false), Err(7)] { cx.case("if error", format!("{x:?}"), || { crate::same(x.or(Ok(true)), IfError::Pass.apply(x))?; crate::same(x.or(Ok(false)), IfError::Fail.apply(x))?; crate::same(x, IfError::Error.apply(x)) }); }
}
fn shorts(cx: &mut Cx) {
    let mut ts: Vec<String> = ["", "a", "None", "null", "Error", "String", "Part", "é", "a\"b", "{", "[1]", ":memory:", ":MEMORY:", "Memory", "Path", "file:///x", "Params", "true", "1", " ", "\n", "😀"].map(str::to_string).into();
    for _ in 0..60 * cx.scale { ts.push(gen_::text(&mut cx.rng, 9)); }
    // every punctuation and blank character before, inside and after an ordinary text, and around the text that is special
    for c in (0x20u8..0x7f).filter(|c| !c.is_ascii_alphanumeric()).map(char::from).chain(['\t', '\n', '\r', '\0', '\u{a0}', '\u{feff}']) { for w in [format!("{c}ab"), format!("a{c}b"), format!("ab{c}"), format!("a{c}{c}b"), format!("{c}:memory:"), format!(":memory:{c}")] { ts.push(w) } }
    for t in &ts {
        let s = StringSource::String(t.clone());
        means(cx, json!(t), s.clone()); alike::<StringSource>(cx, json!(t), json!({"String": t})); alike::<Option<StringSource>>(cx, json!(t), json!({"String": t}));
        means(cx, json!(t), FlagRef { r#type: FlagType::Params, name: s.clone() }); alike::<FlagRef>(cx, json!(t), json!({"name": {"String": t}})); alike::<FlagRef>(cx, json!(t), json!({"name": t, "type": "Params"}));
        means(cx, json!(t), VarRef { r#type: VarType::Params, name: s.clone() }); alike::<VarRef>(cx, json!(t), json!({"name": {"String": t}})); alike::<VarRef>(cx, json!(t), json!({"name": t, "type": "Params"}));
        means(cx, json!(t), QueryParamSelector { name: t.clone(), index: 0 }); alike::<QueryParamSelector>(cx, json!(t), json!({"name": t, "index": 0})); alike::<UrlPart>(cx, json!({"QueryParam": t}), json!({"QueryParam": {"name": t}}));
        means(cx, json!(t), CommandConfig { program: t.clone(), args: vec![], current_dir: None, envs: Default::default(), stdin: None }); alike::<CommandConfig>(cx, json!(t), json!({"program": t, "args": [], "current_dir": null, "envs": {}, "stdin": null}));
        means(cx, json!(t), CommonCall { name: Box::new(s.clone()), args: CommonCallArgsSource { flags: Default::default(), vars: Default::default() } }); alike::<CommonCall>(cx, json!(t), json!({"name": t, "args": {"flags": [], "vars": {}}}));
        means(cx, json!(t), StringSourceJsonValue::String(s.clone())); alike::<StringSourceJsonValue>(cx, json!(t), json!({"String": t}));
        means(cx, json!(t), if t == ":memory:" { CachePath::Memory } else { CachePath::Path(t.clone()) });
        if t != ":memory:" { alike::<CachePath>(cx, json!(t), json!({"Path": t})) }
        cx.case("parsed", t.clone(), || { let q = StringSource::from_str(t).unwrap(); crate::same(&s, &q)?; crate::same(&s, &t.as_str().into())?; crate::same(&s, &t.clone().into())?; crate::same(&Box::new(s.clone()), &t.clone().into())?; crate::same(&Box::new(s.clone()), &t.as_str().into())?;
            let f = FlagRef { r#type: FlagType::Params, name: s.clone() }; crate::same(&f, &t.as_str().into())?; crate::same(&f, &t.clone().into())?; crate::same(&f, &FlagRef::from_str(t).unwrap())?; crate::same(&f, &s.clone().into())?;
            let v = VarRef { r#type: VarType::Params, name: s.clone() }; crate::same(&v, &t.as_str().into())?; crate::same(&v, &t.clone().into())?; crate::same(&v, &VarRef::from_str(t).unwrap())?; crate::same(&v, &s.clone().into())?;
            let m = QueryParamSelector { name: t.clone(), index: 0 }; crate::same(&m, &t.as_str().into())?; crate::same(&m, &t.clone().into())?; crate::same(&m, &QueryParamSelector::from_str(t).unwrap())?;
            crate::same(CachePath::from(t.clone()), CachePath::from(t.as_str()))?; crate::same(CachePath::from(t.clone()), t.parse().unwrap())?; crate::same(t.as_str(), CachePath::from(t.clone()).as_str())?;
            crate::same(CommandConfig::from(t.clone()), CommandConfig::from_str(t).unwrap())?; crate::same(StringSourceJsonValue::from(t.clone()), t.parse().unwrap()) });
    }
    alike::<CachePath>(cx, json!(":memory:"), json!({"Memory": null})); alike::<CachePath>(cx, json!({"Path": "Memory"}), json!("Memory")); cx.case("cache path", "default", || crate::same(CachePath::Memory, CachePath::default()));
    back::<CachePath>(cx, &json!({"Memory": null})); back::<StringSource>(cx, &V::Null); means(cx, V::Null, StringSource::None); alike::<StringSource>(cx, V::Null, json!({"None": null})); means(cx, V::Null, None::<StringSource>);
    for (v, m) in [(V::Null, StringSourceJsonValue::Null), (json!(true), StringSourceJsonValue::Bool(true)), (json!(false), StringSourceJsonValue::Bool(false)), (json!(12), StringSourceJsonValue::Number(12.into())), (json!(-3), StringSourceJsonValue::Number((-3).into())), (json!(1.25), StringSourceJsonValue::Number(serde_json::Number::from_f64(1.25).unwrap())), (json!(u64::MAX), StringSourceJsonValue::Number(u64::MAX.into())), (json!(i64::MIN), StringSourceJsonValue::Number(i64::MIN.into())), (json!([]), StringSourceJsonValue::Array(vec![])), (json!({"Object": {}}), StringSourceJsonValue::Object(Default::default()))] {
        means(cx, v.clone(), m.clone()); means(cx, json!([v, "x"]), StringSourceJsonValue::Array(vec![m.clone(), StringSourceJsonValue::String("x".into())])); means(cx, json!({"Object": {"k": v}}), StringSourceJsonValue::Object([("k".to_string(), m.clone())].into())); back::<RequestBody>(cx, &json!({"Json": v}));
        if !v.is_object() { cx.case("plain value", format!("{v}"), || crate::same(&m, &StringSourceJsonValue::from(v.clone()))); }
    }
    // numbers keep their kind and their sign
    for t in ["0", "-0", "0.0", "-0.0", "1.0", "2.0", "-2.0", "1e3", "9.5e18", "-9.5e18", "1e19", "1.8e19", "1e300", "-1e300", "5e-324", "0.1", "1.5", "9007199254740993", "9007199254740993.0", "4294967296", "-4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808", "255", "256", "-1", "-128", "65536"] {
        let v: V = serde_json::from_str(t).unwrap(); let n = v.as_number().unwrap().clone(); means(cx, v.clone(), StringSourceJsonValue::Number(n.clone()));
        cx.case("number", t, || { let x: StringSourceJsonValue = serde_json::from_str(t).map_err(|e| ("is read".to_string(), e.to_string()))?; let w = serde_json::to_string(&x).unwrap(); crate::same(&StringSourceJsonValue::Number(n.clone()), &x)?; crate::same(&x, &serde_json::from_str::<StringSourceJsonValue>(&w).map_err(|e| (format!("{w} is read"), e.to_string()))?)?; crate::same(format!("{:?}", n), match &x { StringSourceJsonValue::Number(m) => format!("{m:?}"), _ => String::new() }) });
    }
    for b in 0..=255u8 { back::<RegexWrapper>(cx, &json!({"pattern": "a", "line_terminator": b})); }
    // header maps: every value
    for v in ["", " ", "a", " a", "a ", "a,b", "\t", "\"q\"", "a=b; c", "%20", "~!@#$%^&*()_+|:?<>", "0", "true", "null", "é", "naïve; q=\"ü\"", "日本", "\u{80}x"] { for k in ["x-a", "X-Upper", "cookie", "referer", "user-agent", "content-length"] { for f in ["default_headers"] { back::<HttpClientConfig>(cx, &json!({f: {k: v, "x-z": "1"}}));
        cx.case("header", format!("{k}: {v:?}"), || { let c: HttpClientConfig = ok(&json!({f: {k: v, "x-z": "1"}}))?; crate::same((2, Some(v.to_string()), Some("1".to_string())), (c.default_headers.len(), c.default_headers.get(k).and_then(|x| std::str::from_utf8(x.as_bytes()).ok()).map(String::from), c.default_headers.get("x-z").and_then(|x| x.to_str().ok()).map(String::from))) }); }
        back::<HttpClientConfigDiff>(cx, &json!({"add_default_headers": {k: v}})); back::<Mapper>(cx, &json!({"ExpandRedirect": {"headers": {k: v}}})); back::<RequestConfig>(cx, &json!({"headers": {k: v}})); } }
    for t in ["Basic x", "é", "x y", "\u{a0}", ""] { back::<ProxyConfig>(cx, &json!({"url": "http://p/", "auth": {"Custom": t}})); }
    // known findings (known_findings.txt): exactly these two inputs
    cx.case("json-number-last-digit", "0.0010030090270812437 in a JSON body", || { let n: V = serde_json::Number::from_f64(0.0010030090270812437).unwrap().into(); let a = StringSourceJsonValue::from(n); let w = serde_json::to_string(&a).unwrap(); crate::same(&a, &serde_json::from_str::<StringSourceJsonValue>(&w).map_err(|e| ("is read".to_string(), e.to_string()))?) });
    cx.case("header-named-twice", "{\"X-A\": \"1\", \"x-a\": \"2\"}", || { let a: HttpClientConfig = ok(&json!({"default_headers": {"X-A": "1", "x-a": "2"}}))?; let w = serde_json::to_value(&a).unwrap(); crate::same(&a, &ok::<HttpClientConfig>(&w)?) });
    for t in ["x", ""] { for v in [json!(1), json!(true), json!([t])] { refused::<StringSource>(cx, v.clone()); refused::<FlagRef>(cx, v.clone()); refused::<VarRef>(cx, v.clone()); refused::<CommandConfig>(cx, v.clone()); refused::<CommonCall>(cx, v.clone()); refused::<CachePath>(cx, v.clone()); refused::<QueryParamSelector>(cx, v.clone()); refused::<StringModification>(cx, v.clone()); refused::<TaskConfig>(cx, v.clone()); } }
    refused::<FlagRef>(cx, V::Null); refused::<VarRef>(cx, V::Null); refused::<CommandConfig>(cx, V::Null); refused::<CommonCall>(cx, V::Null); refused::<FlagRef>(cx, json!({"type": "Params"})); refused::<VarRef>(cx, json!({"type": "Env"})); refused::<QueryParamSelector>(cx, json!({"index": 0})); refused::<CommandConfig>(cx, json!({"args": []})); refused::<CommonCall>(cx, json!({"args": {}}));
    for _ in 0..60 * cx.scale {
        let u = gen_::url(&mut cx.rng); let t = u.to_string(); let c = TaskConfig { url: u.clone().into(), context: Default::default() };
        means(cx, json!(t), c.clone()); alike::<TaskConfig>(cx, json!(t), json!({"url": t})); alike::<TaskConfig>(cx, json!(t), json!({"url": t, "context": {"vars": {}}}));
        let vars: Map<String, V> = (0..cx.rng.below(3)).map(|i| (format!("v{i}"), json!(gen_::text(&mut cx.rng, 4)))).collect(); let long = json!({"url": t, "context": {"vars": vars}}); back::<TaskConfig>(cx, &long);
        cx.case("parsed", format!("{long}"), || { let x: TaskConfig = ok(&long)?; crate::same(u.as_str(), x.url.as_str())?; crate::same(json!(vars), json!(x.context.vars))?; crate::same(Some(&x), TaskConfig::from_str(&long.to_string()).ok().as_ref())?; crate::same(Some(&x), TaskConfig::try_from(&*long.to_string()).ok().as_ref())?; crate::same(Some(&c), TaskConfig::from_str(&t).ok().as_ref())?; crate::same(Some(&c), TaskConfig::from_str(&json!(t).to_string()).ok().as_ref())?; crate::same(&c, &u.clone().into())?; crate::same(x, ok(&json!(long.to_string()))?) });
        alike::<BetterUrl>(cx, json!(t), json!(t));
        means(cx, json!(t), ProxyConfig { url: u.clone(), mode: ProxyMode::All, auth: None }); alike::<ProxyConfig>(cx, json!(t), json!({"url": t, "mode": "All", "auth": null}));
        cx.case("parsed", format!("proxy {t}"), || { let p = ProxyConfig { url: u.clone(), mode: ProxyMode::All, auth: None }; crate::same(Some(&p), ProxyConfig::from_str(&t).ok().as_ref())?; crate::same(Some(&p), ProxyConfig::try_from(&*t).ok().as_ref())?; crate::same(&p, &u.clone().into()) });
    }
    for w in ["", "no url", "//x", "{", "{}", "\"", "\"no url\"", "http://[", " {\"url\":\"https://a/\"}", "{\"url\":\"no\"}"] { refused::<TaskConfig>(cx, json!(w)); refused::<ProxyConfig>(cx, json!(w)); cx.case("parsed", w, || crate::same((true, true), (TaskConfig::from_str(w).is_err(), ProxyConfig::from_str(w).is_err()))); }
    for w in ["a", "(a|b)+", "é", "", "a b"] { alike::<RegexWrapper>(cx, json!(w), json!({"pattern": w})); alike::<RegexParts>(cx, json!(w), json!({"pattern": w, "unicode": true, "line_terminator": 10})); }
    for w in ["*", "a?b", "[!x]", "", "é*"] { alike::<GlobWrapper>(cx, json!(w), json!({"pattern": w, "case_sensitive": true, "require_literal_separator": false, "require_literal_leading_dot": false})); }
}
fn fields(cx: &mut Cx) {
    let t = json!(true); let f = json!(false); let n = V::Null;
    left_out::<FlagRef>(cx, json!({"name": "a"}), None, &[("type", json!("Params"), vec![json!("Common"), json!("Scratchpad")])]);
    left_out::<VarRef>(cx, json!({"name": "a"}), None, &[("type", json!("Params"), vec![json!("JobContext"), json!("TaskContext"), json!("Common"), json!("Scratchpad"), json!("Env")])]);
    left_out::<QueryParamSelector>(cx, json!({"name": "a"}), None, &[("index", json!(0), vec![json!(1), json!(7)])]);
    left_out::<CommonCall>(cx, json!({"name": "a"}), None, &[("args", json!({}), vec![json!({"flags": ["a"]}), json!({"vars": {"a": "b"}}), json!({"vars": {"a": null}})])]);
    left_out::<CommonCallArgsSource>(cx, json!({}), None, &[("flags", json!([]), vec![json!(["", "a"])]), ("vars", json!({}), vec![json!({"": {"Part": "Host"}})])]);
    left_out::<CommandConfig>(cx, json!({"program": "p"}), None, &[("args", json!([]), vec![json!(["a", null]), json!([""])]), ("current_dir", n.clone(), vec![json!("/tmp"), json!("")]), ("envs", json!({}), vec![json!({"A": null, "B": "b"})]), ("stdin", n.clone(), vec![json!("x"), json!("")])]);
    left_out::<ProxyConfig>(cx, json!({"url": "http://p/"}), None, &[("mode", json!("All"), vec![json!("Http"), json!("Https")]), ("auth", n.clone(), vec![json!({"Basic": {"username": "u", "password": ""}}), json!({"Custom": "x"})])]);
    left_out::<TaskConfig>(cx, json!({"url": "http://p/"}), None, &[("context", json!({}), vec![json!({"vars": {"a": "b"}})])]);
    left_out::<RequestConfig>(cx, json!({}), None, &[("url", json!({"Part": "Whole"}), vec![n.clone(), json!("http://x/"), json!({"Part": "Host"})]), ("method", json!("GET"), vec![json!("POST"), json!("HEAD"), json!("FOO")]), ("headers", json!({}), vec![json!({"a": null}), json!({"A": "b"})]), ("body", n.clone(), vec![json!({"Text": ""}), json!({"Form": {"a": null}}), json!({"Json": null}), json!({"Json": {"Object": {"a": null}}})]), ("response_handler", json!("Body"), vec![json!("Url"), json!({"Header": "a"}), json!({"Cookie": "a"})]), ("client_config_diff", n.clone(), vec![json!({}), json!({"referer": false})])]);
    let hdr = json!({"x-a": "1", "x-b": "2"}); let px = json!(["http://p/", {"url": "http://q/", "mode": "Http"}]);
    left_out::<HttpClientConfig>(cx, json!({}), None, &[("default_headers", json!({}), vec![hdr.clone()]), ("redirect_policy", json!({"Limited": 10}), vec![json!("None"), json!({"Limited": 0}), json!({"Limited": 9})]), ("https_only", f.clone(), vec![t.clone()]), ("proxies", json!([]), vec![px.clone()]), ("no_proxy", f.clone(), vec![t.clone()]), ("referer", f.clone(), vec![t.clone()]), ("extra_certificates", json!([]), vec![json!(["c"])])]);
    left_out::<HttpClientConfigDiff>(cx, json!({}), None, &[("redirect_policy", n.clone(), vec![json!("None"), json!({"Limited": 10})]), ("add_default_headers", json!({}), vec![hdr]), ("https_only", n.clone(), vec![f.clone(), t.clone()]), ("set_proxies", n.clone(), vec![json!([]), px.clone()]), ("add_proxies", json!([]), vec![px]), ("no_proxy", n.clone(), vec![f.clone(), t.clone()]), ("referer", n.clone(), vec![f.clone(), t.clone()]), ("add_extra_certificates", json!([]), vec![json!(["c"])]), ("remove_extra_certificates", json!([]), vec![json!(["c"])])]);
    left_out::<Params>(cx, json!({}), None, &[("flags", json!([]), vec![json!(["a", "b"])]), ("vars", json!({}), vec![json!({"a": ""})]), ("sets", json!({}), vec![json!({"a": []}), json!({"a": ["b", ""]})]), ("lists", json!({}), vec![json!({"a": ["b", "b", "a"]})]), ("maps", json!({}), vec![json!({"a": {"map": {}}}), json!({"a": {"map": {"b": "c"}, "if_null": "", "else": "e"}})]), ("named_partitionings", json!({}), vec![json!({"a": {"p": ["1", "2"], "q": []}})]), ("read_cache", t.clone(), vec![f.clone()]), ("write_cache", t.clone(), vec![f.clone()]), ("http_client_config", json!({}), vec![json!({"referer": true})])]);
    cx.case("defaults", "Params", || crate::same(Params::default(), ok(&json!({}))?)); cx.case("defaults", "cache", || { let p: Params = ok(&json!({}))?; crate::same((true, true, true), (p.read_cache, p.write_cache, p.http_client_config == HttpClientConfig::default())) });
    left_out::<ParamsDiff>(cx, json!({}), None, &[("flags", json!([]), vec![json!(["a"])]), ("unflags", json!([]), vec![json!(["a"])]), ("vars", json!({}), vec![json!({"a": "b"})]), ("unvars", json!([]), vec![json!(["a"])]), ("init_sets", json!([]), vec![json!(["a"])]), ("insert_into_sets", json!({}), vec![json!({"a": ["b"]})])]);
    left_out::<ParamsDiff>(cx, json!({}), None, &[("remove_from_sets", json!({}), vec![json!({"a": ["b"]})]), ("delete_sets", json!([]), vec![json!(["a"])]), ("init_maps", json!([]), vec![json!(["a"])]), ("map_diffs", json!({}), vec![json!({"a": {"insert_into_map": {"b": "c"}, "remove_from_map": ["d"]}}), json!({"a": {}})]), ("delete_maps", json!([]), vec![json!(["a"])]), ("read_cache", n.clone(), vec![f.clone(), t.clone()])]);
    left_out::<ParamsDiff>(cx, json!({}), None, &[("write_cache", n.clone(), vec![f.clone(), t.clone()]), ("http_client_config_diff", n.clone(), vec![json!({}), json!({"no_proxy": false})])]);
    left_out::<Commons>(cx, json!({}), None, &[("rules", json!({}), vec![json!({"a": {"Mapper": "None"}})]), ("conditions", json!({}), vec![json!({"a": "Always"})]), ("mappers", json!({}), vec![json!({"a": "None"})]), ("string_sources", json!({}), vec![json!({"a": null}), json!({"a": "b"})]), ("string_modifications", json!({}), vec![json!({"a": "Lowercase"})]), ("string_matchers", json!({}), vec![json!({"a": "Always"})])]);
    left_out::<Config>(cx, json!({"rules": []}), None, &[("docs", json!({}), vec![json!({"title": "a"}), json!({"description": ["a"]}), json!({"environment_vars": {"a": "b"}}), json!({"flags": {"a": "b"}})]), ("cache_path", json!(":memory:"), vec![json!("Memory"), json!("x.sqlite")]), ("params", json!({}), vec![json!({"flags": ["a"]}), json!({"read_cache": false})]), ("commons", json!({}), vec![json!({"mappers": {"a": "None"}})])]);
    refused::<Config>(cx, json!({})); refused::<Config>(cx, json!({"rules": {}})); refused::<Config>(cx, json!({"rules": ["x"]}));
    let rx: Vec<(&str, V, Vec<V>)> = ["case_insensitive", "crlf", "dot_matches_new_line", "ignore_whitespace", "multi_line", "octal", "swap_greed"].iter().map(|k| (*k, f.clone(), vec![t.clone()])).chain([("line_terminator", json!(10), vec![json!(0), json!(13), json!(255)]), ("unicode", t.clone(), vec![f.clone()])]).collect();
    left_out::<RegexParts>(cx, json!({"pattern": "a"}), None, &rx); left_out::<RegexWrapper>(cx, json!({"pattern": "a"}), None, &rx);
    left_out::<GlobWrapper>(cx, json!({"pattern": "a"}), None, &[("case_sensitive", t.clone(), vec![f.clone()]), ("require_literal_separator", f.clone(), vec![t.clone()]), ("require_literal_leading_dot", t.clone(), vec![f.clone()])]);
    // inside the rule language
    left_out::<Mapper>(cx, json!({"mapper": "None", "delay": 1.5}), Some("Retry"), &[("limit", json!(10), vec![json!(0), json!(9), json!(255)])]);
    left_out::<Mapper>(cx, json!({"condition": "Always", "mapper": "None"}), Some("If"), &[("else_mapper", n.clone(), vec![json!("None"), json!({"Error": ""})])]);
    left_out::<Mapper>(cx, json!({}), Some("ExpandRedirect"), &[("headers", json!({}), vec![json!({"a": "b"})]), ("http_client_config_diff", n.clone(), vec![json!({})])]);
    for k in ["Base64Encode", "Base64Decode"] { left_out::<StringModification>(cx, json!({}), Some(k), &[("alphabet", json!("UrlSafe"), vec![json!("Standard")]), ("encode_padding", json!(true), vec![json!(false)]), ("decode_padding", json!("Indifferent"), vec![json!("RequireCanonical"), json!("RequireNone")])]); back::<StringModification>(cx, &json!({k: {"alphabet": "UrlSafe", "encode_padding": false}})); }
    left_out::<StringMatcher>(cx, json!({"value": "a"}), Some("Contains"), &[("where", json!("Anywhere"), vec![json!("Start"), json!("End"), json!({"StartsAt": 1})])]);
}
fn values(cx: &mut Cx) {
    for _ in 0..150 * cx.scale {
        let px = ["http://p/".to_string(), "http://q/".to_string()]; let d = cx.rng.below(4);
        let v = http22::gen_json(&mut cx.rng, d); back::<StringSourceJsonValue>(cx, &v); back::<RequestBody>(cx, &json!({"Json": v}));
        let v = http22::gen_client(&mut cx.rng, false, &px); back::<HttpClientConfig>(cx, &v); let v = http22::gen_client(&mut cx.rng, true, &px); back::<HttpClientConfigDiff>(cx, &v); back::<ParamsDiff>(cx, &json!({"http_client_config_diff": v}));
        let v = http22::gen_request(&mut cx.rng, "http://x", &px); back::<RequestConfig>(cx, &v); back::<StringSource>(cx, &json!({"HttpRequest": v}));
        let r = &mut cx.rng; let g = G { lvl: 2 };
        let mut c = json!({"program": gen_::text(r, 6)}); if r.chance(1, 2) { let n = r.below(3); c["args"] = V::Array((0..n).map(|_| progs::ss(r, g, 1)).collect()) } if r.chance(1, 3) { c["envs"] = json!({"A": progs::ss(r, g, 1)}) } if r.chance(1, 3) { c["current_dir"] = json!(gen_::text(r, 5)) } if r.chance(1, 3) { let t = gen_::text(r, 5); c["stdin"] = if r.chance(1, 2) { json!(t) } else { json!({"Part": "Host"}) } }
        back::<CommandConfig>(cx, &c); back::<StringSource>(cx, &json!({"CommandOutput": c}));
        let r = &mut cx.rng; let b: [bool; 8] = std::array::from_fn(|_| r.chance(1, 2)); let lt = *r.pick(&[10u8, 0, 255]); let pat = *r.pick(&["a", "a.b", "", "[ab]+", "é"]);
        back::<RegexParts>(cx, &json!({"pattern": pat, "case_insensitive": b[0], "crlf": b[1], "dot_matches_new_line": b[2], "ignore_whitespace": b[3], "line_terminator": lt, "multi_line": b[4], "octal": b[5], "swap_greed": b[6], "unicode": b[7]}));
        back::<RegexWrapper>(cx, &json!({"pattern": pat, "case_insensitive": b[0], "crlf": b[1], "dot_matches_new_line": b[2], "ignore_whitespace": b[3], "multi_line": b[4], "octal": b[5], "swap_greed": b[6]}));
        back::<GlobWrapper>(cx, &json!({"pattern": "a*", "case_sensitive": b[0], "require_literal_separator": b[1], "require_literal_leading_dot": b[2]}));
        let r = &mut cx.rng; let mut p: Map<String, V> = Map::new(); let mut k = 0; for i in 0..r.below(4) { let n = r.below(4); p.insert(["p", "q", "", "é"][i].into(), V::Array((0..n).map(|_| { k += 1; json!(format!("e{k}")) }).collect())); } back::<NamedPartitioning>(cx, &V::Object(p.clone()));
        cx.case("partitioning", format!("{p:?}"), || { let n: NamedPartitioning = ok(&V::Object(p.clone()))?; for (name, es) in &p { for e in es.as_array().unwrap() { crate::same(Some(name.as_str()), n.get_partition(e.as_str().unwrap()))? } } crate::same(None, n.get_partition("nothing"))?; let w = serde_json::to_value(&n).unwrap(); let mut a: Vec<&String> = p.keys().collect(); let mut b: Vec<&String> = w.as_object().unwrap().keys().collect(); a.sort(); b.sort(); crate::same(a, b) });
        let s = *cx.rng.pick(&[0.0, 0.25, 1.0, 3.125, 0.000000001, 59.999, 86400.0, 0.1, 12345.678901234]); back::<Mapper>(cx, &json!({"Retry": {"mapper": "None", "delay": s}}));
    }
    refused::<NamedPartitioning>(cx, json!({"p": ["a"], "q": ["a"]})); refused::<NamedPartitioning>(cx, json!(["a"]));
}
fn progs_(cx: &mut Cx) {
    for _ in 0..350 * cx.scale {
        let d = cx.rng.below(4); let g = G { lvl: 2 };
        let v = progs::ss(&mut cx.rng, g, d); back::<StringSource>(cx, &v); let v = progs::sm(&mut cx.rng, g, d); back::<StringModification>(cx, &v); let v = progs::mat(&mut cx.rng, g, d); back::<StringMatcher>(cx, &v);
        let v = progs::cond(&mut cx.rng, g, d); back::<Condition>(cx, &v); let v = progs::mapper(&mut cx.rng, g, d); back::<Mapper>(cx, &v); let v = progs::rule(&mut cx.rng, g, d); back::<Rule>(cx, &v);
        let v = progs::loc(&mut cx.rng, d); back::<StringLocation>(cx, &v); let v = progs::chr(&mut cx.rng, d); back::<CharMatcher>(cx, &v); let v = parts::part(&mut cx.rng); back::<UrlPart>(cx, &v); let v = progs::flag(&mut cx.rng, g, d); back::<FlagRef>(cx, &v); let v = progs::vref(&mut cx.rng, g, d); back::<VarRef>(cx, &v); let v = progs::ccall(&mut cx.rng, g, d); back::<CommonCall>(cx, &v);
        let v = progs::map(&mut cx.rng, ("map", json!({})), 3, |r| json!(gen_::text(r, 3)), &["a", "b", ""]); back::<Map<String, V>>(cx, &v); back::<url_cleaner::types::Map<String>>(cx, &v);
        let (w, x) = (progs::ss(&mut cx.rng, g, 0), progs::ss(&mut cx.rng, g, 1)); back::<StringSource>(cx, &json!({"Cache": {"category": w, "key": x, "value": "v"}})); back::<Mapper>(cx, &json!({"CacheUrl": {"category": w, "mapper": "None"}}));
    }
}
fn whole(cx: &mut Cx) {
    for _ in 0..60 * cx.scale {
        let p = progs::params(&mut cx.rng); back::<Params>(cx, &p); let c = progs::commons(&mut cx.rng, 2); back::<Commons>(cx, &c); let n = cx.rng.below(4); let rs: Vec<V> = (0..n).map(|_| progs::rule(&mut cx.rng, G { lvl: 2 }, 2)).collect();
        let v = json!({"params": p, "commons": c, "rules": rs, "cache_path": *cx.rng.pick(&[":memory:", "x", "Memory", "file:///a"])}); back::<Config>(cx, &v);
        cx.case("file", format!("{v}"), || { let d = Dir(std::env::temp_dir().join(format!("vx-written-{}", std::process::id()))); std::fs::create_dir_all(&d.0).unwrap(); let f = d.0.join("c.json"); std::fs::write(&f, v.to_string()).unwrap();
            let a: Config = ok(&v)?; crate::same(Some(&a), Config::load_from_file(&f).ok().as_ref())?; crate::same(Some(&a), Config::load_or_get_default(Some(&f)).ok().as_deref())?; crate::same(Some(&a), Config::load_or_get_default_no_cache(Some(&f)).ok().as_ref())?;
            crate::same((true, true), (Config::load_from_file(d.0.join("none")).is_err(), Config::load_or_get_default(Some(d.0.join("none"))).is_err())) });
        let d = http22::gen_client(&mut cx.rng, true, &["http://p/".into(), "http://q/".into()]); let pd = json!({"flags": ["a"], "vars": {"b": "c"}, "unflags": ["d"], "http_client_config_diff": d});
        let t = json!({"sets": [{"params_diff": pd, "job_context": {"vars": {"j": "k"}}, "tests": [{"task_config": "https://a/", "result": "https://b/"}]}]});
        if r::<Tests>(&t).is_ok() { cx.case("tests", format!("{t}"), || { let a: Tests = ok(&t)?; let w = serde_json::to_value(&a).unwrap(); let b: Tests = ok(&w)?; crate::same(a, b) }); }
    }
    cx.case("default configuration", "read, written and read back", || { let d = Config::get_default_no_cache().map_err(|e| ("is read".to_string(), e.to_string()))?; let t = serde_json::to_string(&d).unwrap(); crate::same(Some(&d), serde_json::from_str::<Config>(&t).ok().as_ref())?;
        crate::same(Some(&d), Config::get_default().ok())?; crate::same(Some(&d), Config::load_or_get_default(None::<&str>).ok().as_deref())?; crate::same(Some(&d), Config::load_or_get_default_no_cache(None::<&str>).ok().as_ref()) });
}
struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
