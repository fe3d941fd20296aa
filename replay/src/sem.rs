//! Reference interpreter: what rules, mappers, conditions, sources, edits and matchers mean, read off the config JSON.
//! Written from the property statements; shares no code with the crate under test.
use crate::{hosts, refi::*, segs::*};
use std::collections::{BTreeMap, BTreeSet};
use url::Url;
pub type E = &'static str;
pub type Args = Option<(BTreeSet<String>, BTreeMap<String, String>)>;
pub struct Env { pub params: V, pub commons: V, pub job: V, pub ctx: V }
#[derive(Clone, Debug, PartialEq)]
pub struct St { pub url: Url, pub flags: BTreeSet<String>, pub vars: BTreeMap<String, String> }
const NIL: V = V::Null;
fn st(v: &V) -> &str { v.as_str().unwrap_or_else(|| panic!("not a string: {v}")) }
fn arr(v: &V) -> &[V] { v.as_array().map(|x| x.as_slice()).unwrap_or_else(|| panic!("not a list: {v}")) }
fn has(v: &V, s: &str) -> bool { v.as_array().is_some_and(|a| a.iter().any(|x| x.as_str() == Some(s))) }
/// lookup table: null key -> if_null; then the default entry
pub fn entry<'a>(m: &'a V, k: Option<&str>) -> Option<&'a V> {
    let opt = |v: &'a V| if v.is_null() { None } else { Some(v) };
    (match k { Some(k) => m["map"].get(k), None => opt(&m["if_null"]) }).or(opt(&m["else"]))
}
/// as `entry`, for tables whose values may themselves be the absent source (JSON null)
fn payload<'a>(v: &'a V, skip: &[&str]) -> (&'a str, &'a V) { let (k, x) = v.as_object().unwrap().iter().find(|(k, _)| !skip.contains(&k.as_str())).unwrap(); (k, x) }
fn call<'a, 'e>(v: &'a V) -> (V, &'a V) { match v { V::String(s) => (V::String(s.clone()), &NIL), _ => (v["name"].clone(), &v["args"]) } }

pub struct Cxt<'a> { pub env: &'a Env, pub s: &'a St, pub args: &'a Args }
impl<'a> Cxt<'a> {
    fn with(&self, args: &'a Args) -> Cxt<'a> { Cxt { env: self.env, s: self.s, args } }
    fn need(&self, v: &V) -> Result<String, E> { self.ss(v)?.ok_or("none") }
    pub fn flag(&self, v: &V) -> Result<bool, E> {
        let (ty, name) = match v { V::String(s) => ("Params", V::String(s.clone())), _ => (v["type"].as_str().unwrap_or("Params"), v["name"].clone()) };
        let n = self.need(&name)?;
        Ok(match ty { "Params" => has(&self.env.params["flags"], &n), "Scratchpad" => self.s.flags.contains(&n), "Common" => self.args.as_ref().ok_or("nocall")?.0.contains(&n), t => panic!("{t}") })
    }
    pub fn var(&self, v: &V) -> Result<Option<String>, E> {
        let (ty, name) = match v { V::String(s) => ("Params", V::String(s.clone())), _ => (v["type"].as_str().unwrap_or("Params"), v["name"].clone()) };
        let n = self.need(&name)?; let o = |m: &V| m[&n].as_str().map(String::from);
        Ok(match ty { "Params" => o(&self.env.params["vars"]), "JobContext" => o(&self.env.job), "TaskContext" => o(&self.env.ctx), "Scratchpad" => self.s.vars.get(&n).cloned(),
            "Common" => self.args.as_ref().ok_or("nocall")?.1.get(&n).cloned(), "Env" => std::env::var_os(&n).map(|x| x.into_string().unwrap()), t => panic!("{t}") })
    }
    pub fn build(&self, v: &V) -> Result<Args, E> {
        let mut f = BTreeSet::new(); let mut m = BTreeMap::new();
        if let Some(a) = v["flags"].as_array() { for x in a { f.insert(st(x).to_string()); } }
        if let Some(a) = v["vars"].as_object() { for (k, x) in a { m.insert(k.clone(), self.need(x)?); } }
        Ok(Some((f, m)))
    }
    pub fn ss(&self, v: &V) -> Result<Option<String>, E> {
        if v.is_null() { return Ok(None) }
        if let V::String(s) = v { return Ok(Some(s.clone())) }
        let (n, x) = var(v);
        match n {
            "None" => Ok(None), "String" => Ok(Some(st(x).into())), "Error" => Err("ExplicitError"),
            "ErrorToNone" => Ok(self.ss(x).unwrap_or(None)), "ErrorToEmptyString" => Ok(self.ss(x).unwrap_or(Some(String::new()))),
            "TryElse" => match self.ss(&x["try"]) { Ok(r) => Ok(r), Err(_) => self.ss(&x["else"]) },
            "Debug" => self.ss(x), "NoneToEmptyString" => Ok(Some(self.ss(x)?.unwrap_or_default())),
            "NoneTo" => match self.ss(&x["value"])? { Some(s) => Ok(Some(s)), None => self.ss(&x["if_none"]) },
            "Join" => { let mut out = String::new(); for (i, y) in arr(&x["sources"]).iter().enumerate() { match self.ss(y)? { None => return Ok(None), Some(t) => { if i > 0 { out += x["join"].as_str().unwrap_or(""); } out += &t; } } } Ok(Some(out)) }
            "IfFlag" => { let f = serde_json::json!({"type": x.get("type").cloned().unwrap_or("Params".into()), "name": x["name"]}); self.ss(&x[if self.flag(&f)? { "then" } else { "else" }]) }
            "IfStringMatches" => { let t = self.need(&x["value"])?; self.ss(&x[if self.mat(&x["matcher"], &t)? { "then" } else { "else" }]) }
            "IfStringIsNone" => { let t = self.ss(&x["value"])?; self.ss(&x[if t.is_none() { "then" } else { "else" }]) }
            "Map" => { let k = self.ss(&x["value"])?; match entry(x, k.as_deref()) { Some(e) => self.ss(e), None => Err("StringNotInMap") } }
            "Part" => Ok(part_get(x, &self.s.url)),
            "ExtractPart" => match self.ss(&x["value"])? { None => Ok(None), Some(t) => { let u = Url::parse(&t).map_err(|_| "UrlParseError")?; Ok(part_get(&x["part"], &u)) } },
            "Var" => self.var(x),
            "ParamsMap" => { let n = self.need(&x["name"])?; let m = self.env.params["maps"].get(&n).ok_or("MapNotFound")?; let k = self.ss(&x["key"])?; Ok(entry(m, k.as_deref()).map(|e| st(e).to_string())) }
            "ParamsNamedPartitioning" => { let n = self.need(&x["name"])?; let p = self.env.params["named_partitionings"].get(&n).ok_or("NotFound")?; let e = self.need(&x["element"])?; Ok(p.as_object().unwrap().iter().find(|(_, l)| has(l, &e)).map(|(k, _)| k.clone())) }
            "Modified" => match self.ss(&x["value"])? { None => Ok(None), Some(mut t) => { self.sm(&x["modification"], &mut t)?; Ok(Some(t)) } },
            "ExtractBetween" => { let t = self.need(&x["value"])?; between(&t, || self.need(&x["start"]), || self.need(&x["end"])).map(Some) }
            "RegexFind" => match self.ss(&x["value"])? { None => Ok(None), Some(t) => Ok(rx(&x["regex"])?.find(&t).map(|m| m.as_str().to_string())) },
            "Common" => { let (c, a) = call(x); let n = self.need(&c)?; let b = self.env.commons["string_sources"].get(&n).ok_or("CommonNotFound")?; let a = self.build(a)?; self.with(&a).ss(b) }
            n => panic!("source {n}"),
        }
    }
    pub fn sm(&self, v: &V, t: &mut String) -> Result<(), E> {
        let (n, x) = var(v);
        match n {
            "None" => {} "Error" => return Err("ExplicitError"), "Debug" => return self.sm(x, t),
            "IgnoreError" => { let _ = self.sm(x, t); }
            "RevertOnError" => { let mut c = t.clone(); self.sm(x, &mut c)?; *t = c; }
            "TryElse" => if self.sm(&x["try"], t).is_err() { return self.sm(&x["else"], t).map_err(|_| "TryElseError") },
            "All" => for y in arr(x) { self.sm(y, t)? },
            "FirstNotError" => { let mut r = Ok(()); for y in arr(x) { r = self.sm(y, t); if r.is_ok() { break } } return r }
            "If" => { if self.cond(&x["condition"]).map_err(|_| "ConditionError")? { return self.sm(&x["then"], t) } else if !x["else"].is_null() { return self.sm(&x["else"], t) } }
            "IfMatches" => { if self.mat(&x["matcher"], t)? { return self.sm(&x["then"], t) } else if !x["else"].is_null() { return self.sm(&x["else"], t) } }
            "Set" => *t = self.need(x)?, "Append" => { let a = self.need(x)?; *t = format!("{t}{a}") } "Prepend" => { let a = self.need(x)?; *t = format!("{a}{t}") }
            "Replace" => { let (f, r) = (self.need(&x["find"])?, self.need(&x["replace"])?); *t = split(t, &f).join(&r) }
            "Replacen" => { let (f, r) = (self.need(&x["find"])?, self.need(&x["replace"])?); let p = split(t, &f); let k = (x["count"].as_u64().unwrap() as usize).min(p.len() - 1); *t = format!("{}{}{}", p[..k].join(&r), if k > 0 { r.as_str() } else { "" }, p[k..].join(&f)) }
            "ReplaceRange" => { let (a, b) = brange(&x["start"], &x["end"], t)?; let r = self.need(&x["replace"])?; *t = format!("{}{r}{}", &t[..a], &t[b..]) }
            "KeepRange" => { let (a, b) = brange(&x["start"], &x["end"], t)?; *t = t[a..b].to_string() }
            "Lowercase" => *t = t.to_lowercase(), "Uppercase" => *t = t.to_uppercase(),
            "StripPrefix" => { let p = self.need(x)?; *t = t.strip_prefix(p.as_str()).ok_or("PrefixNotFound")?.to_string() }
            "StripSuffix" => { let p = self.need(x)?; *t = t.strip_suffix(p.as_str()).ok_or("SuffixNotFound")?.to_string() }
            "StripMaybePrefix" => { let p = self.need(x)?; if let Some(r) = t.strip_prefix(p.as_str()) { *t = r.to_string() } }
            "StripMaybeSuffix" => { let p = self.need(x)?; if let Some(r) = t.strip_suffix(p.as_str()) { *t = r.to_string() } }
            "Insert" => { let i = ridx(int(&x["index"]), t.len()).filter(|i| t.is_char_boundary(*i)).ok_or("InvalidIndex")?; let r = self.need(&x["value"])?; *t = format!("{}{r}{}", &t[..i], &t[i..]) }
            "RemoveChar" => { let i = ridx(int(x), t.len()).filter(|i| t.is_char_boundary(*i)).ok_or("InvalidIndex")?; let mut c = t[i..].chars(); c.next(); *t = format!("{}{}", &t[..i], c.as_str()) }
            "RegexCaptures" => { let r = self.need(&x["replace"])?; let mut o = String::new(); rx(&x["regex"])?.captures(t).ok_or("RegexMatchNotFound")?.expand(&r, &mut o); *t = o }
            "JoinAllRegexCaptures" => { let r = self.need(&x["replace"])?; let j = self.need(&x["join"])?; let e = rx(&x["regex"])?; let v: Vec<String> = e.captures_iter(t).map(|c| { let mut o = String::new(); c.expand(&r, &mut o); o }).collect(); *t = v.join(&j) }
            "RegexFind" => *t = rx(x)?.find(t).ok_or("RegexMatchNotFound")?.as_str().to_string(),
            "RegexReplace" => { let r = self.rep(x)?; *t = r.0.replacen(t, 1, r.1.as_str()).into_owned() }
            "RegexReplaceAll" => { let r = self.rep(x)?; *t = r.0.replacen(t, 0, r.1.as_str()).into_owned() }
            "RegexReplacen" => { let r = self.rep(x)?; *t = r.0.replacen(t, x["n"].as_u64().unwrap() as usize, r.1.as_str()).into_owned() }
            "UrlEncode" => { let keep = match x.as_str().unwrap_or("JsEncodeUriComponent") { "JsEncodeUriComponent" => "-_.!~*'()", "JsEncodeUri" => "-_.!~*'();/?:@&=+$,#", _ => "" };
                *t = t.bytes().map(|b| if b.is_ascii_alphanumeric() || keep.as_bytes().contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }
            "UrlDecode" => { let b = t.as_bytes(); let mut o = vec![]; let mut i = 0; let h = |c: u8| (c as char).to_digit(16);
                while i < b.len() { if b[i] == b'%' && i + 2 < b.len() { if let (Some(x), Some(y)) = (h(b[i + 1]), h(b[i + 2])) { o.push((x * 16 + y) as u8); i += 3; continue } } o.push(b[i]); i += 1 }
                *t = String::from_utf8(o).map_err(|_| "Utf8Error")? }
            "Base64Encode" => *t = b64enc(x, t), "Base64Decode" => *t = b64dec(x, t)?,
            "JsonPointer" => { let j: V = serde_json::from_str(t).map_err(|_| "SerdeJsonError")?; let p = self.need(x)?; *t = j.pointer(&p).ok_or("JsonValueNotFound")?.as_str().ok_or("NotAString")?.to_string() }
            "RemoveQueryParamsMatching" | "AllowQueryParamsMatching" => { let keep = n.starts_with('A'); let mut o = vec![]; for kev in split(t, "&") { let name = &kev[..kev.find('=').unwrap_or(kev.len())]; if self.mat(x, name)? == keep { o.push(kev) } } *t = o.join("&") }
            "ExtractBetween" => *t = between(t, || self.need(&x["start"]), || self.need(&x["end"]))?,
            "KeepNthSegment" => { let s = split(t, &self.need(&x["split"])?); let k = ridx(int(&x["index"]), s.len()).ok_or("SegmentNotFound")?; *t = s[k].clone() }
            "KeepSegmentRange" => { let by = self.need(&x["split"])?; let s = split(t, &by); let (a, b) = rrange(x["start"].as_i64().unwrap_or(0) as isize, x["end"].as_i64().map(|e| e as isize), s.len()).ok_or("Range")?; *t = s[a..b].join(&by) }
            "SetSegment" => { let by = self.need(&x["split"])?; let mut s = split(t, &by); let k = ridx(int(&x["index"]), s.len()).ok_or("SegmentNotFound")?; match self.ss(&x["value"])? { Some(r) => s[k] = r, None => { s.remove(k); } } *t = s.join(&by) }
            "InsertSegment" => { let by = self.need(&x["split"])?; let mut s = split(t, &by); let k = rbound(int(&x["index"]), s.len()).ok_or("SegmentNotFound")?; if let Some(r) = self.ss(&x["value"])? { s.insert(k, r) } *t = s.join(&by) }
            "StringMap" => { let k = self.ss(&x["value"])?; if let Some(m) = entry(x, k.as_deref()) { return self.sm(m, t) } }
            "Common" => { let (c, a) = call(x); let n = self.need(&c)?; let b = self.env.commons["string_modifications"].get(&n).ok_or("CommonNotFound")?; let a = self.build(a)?; return self.with(&a).sm(b, t) }
            "GetJsStringLiteralPrefix" => *t = crate::decode::js(t).ok_or("Js")?,
            "UnescapeHtmlText" => *t = crate::decode::html(t).ok_or("Html")?,
            n => panic!("modification {n}"),
        }
        Ok(())
    }
    fn rep(&self, x: &V) -> Result<(regex::Regex, String), E> { let r = rx(&x["regex"]); let t = self.need(&x["replace"]); Ok((r?, t?)) }
    pub fn mat(&self, v: &V, h: &str) -> Result<bool, E> {
        let (n, x) = var(v);
        if let Some(r) = connective(n, x, |y| self.mat(y, h)) { return r }
        Ok(match n {
            "Contains" => { let nd = self.need(&x["value"])?; loc(&x["where"], h, &nd)? }
            "ContainsAny" => { for y in arr(&x["values"]) { let nd = self.need(y)?; if loc(&x["where"], h, &nd)? { return Ok(true) } } false }
            "ContainsAnyInList" => { let l = self.need(&x["list"])?; for y in arr(self.env.params["lists"].get(&l).ok_or("ListNotFound")?) { if loc(&x["where"], h, st(y))? { return Ok(true) } } false }
            "Is" => self.need(x)? == h, "IsOneOf" => has(x, h), "InSet" => { let s = self.need(x)?; has(&self.env.params["sets"][&s], h) }
            "Regex" => rx(x)?.is_match(h), "Glob" => glob::Pattern::new(st(x)).unwrap().matches(h),
            "Modified" => { let mut t = h.to_string(); self.sm(&x["modification"], &mut t)?; self.mat(&x["matcher"], &t)? }
            "OnlyTheseChars" => h.chars().all(|c| has(x, &c.to_string())),
            "AllCharsMatch" => { for c in h.chars() { if !chr(x, c)? { return Ok(false) } } true }
            "AnyCharMatches" => { for c in h.chars() { if chr(x, c)? { return Ok(true) } } false }
            "IsAscii" => h.bytes().all(|b| b < 128), "LengthIs" => h.len() as u64 == x.as_u64().unwrap(),
            "NthSegmentMatches" => { let s = split(h, &self.need(&x["split"])?); let k = ridx(int(&x["n"]), s.len()).ok_or("SegmentNotFound")?; self.mat(&x["matcher"], &s[k])? }
            "AnySegmentMatches" => { for s in split(h, &self.need(&x["split"])?) { if self.mat(&x["matcher"], &s)? { return Ok(true) } } false }
            "SegmentsStartWith" => { let by = self.need(&x["split"])?; let val = self.need(&x["value"])?; h.starts_with(&format!("{val}{by}")) }
            "SegmentsEndWith" => { let by = self.need(&x["split"])?; let val = self.need(&x["value"])?; match h.strip_suffix(val.as_str()) { Some(rest) => split(rest, &by).last().map(|s| s.is_empty()) == Some(true), None => false } }
            "Common" => { let (c, a) = call(x); let n = self.need(&c)?; let b = self.env.commons["string_matchers"].get(&n).ok_or("CommonNotFound")?; let a = self.build(a)?; self.with(&a).mat(b, h)? }
            n => panic!("matcher {n}"),
        })
    }
    /// errors are the names of ConditionError's variants, because error filters select by them
    pub fn cond(&self, v: &V) -> Result<bool, E> {
        let (n, x) = var(v); let u = &self.s.url;
        fn m(e: E) -> E { if e == "none" { "StringSourceIsNone" } else { "StringSourceError" } }
        let need = |y: &V| match self.ss(y) { Ok(Some(s)) => Ok(s), Ok(None) => Err("StringSourceIsNone"), Err(_) => Err("StringSourceError") };
        let get = |y: &V| self.ss(y).map_err(|_| "StringSourceError");
        let selects = |f: &V, e: E| f.as_array().is_none_or(|a| a.iter().any(|y| y.as_str() == Some(e)));
        let eq = |p: &str| part_get(&V::String(p.into()), u).as_deref() == x.as_str();
        Ok(match n {
            "TreatErrorAsPass" | "TreatErrorAsFail" => { let (k, y) = payload(x, &["filter"]); let inner = serde_json::json!({k: y}); match self.cond(&inner) { Err(e) if selects(&x["filter"], e) => n.ends_with("Pass"), r => r? } }
            "TryElse" => match self.cond(&x["try"]) { Err(e) if selects(&x["filter"], e) => self.cond(&x["else"]).map_err(|_| "TryElseError")?, r => r? },
            "PartMap" => match entry(x, part_get(&x["part"], u).as_deref()) { Some(c) => self.cond(c)?, None => false },
            "StringMap" => match entry(x, get(&x["value"])?.as_deref()) { Some(c) => self.cond(c)?, None => false },
            "HostIs" => eq("Host"), "SubdomainIs" => eq("Subdomain"), "RegDomainIs" => eq("RegDomain"), "DomainIs" => eq("Domain"), "DomainMiddleIs" => eq("DomainMiddle"), "NotDomainSuffixIs" => eq("NotDomainSuffix"), "DomainSuffixIs" => eq("DomainSuffix"),
            "HostIsOneOf" => u.host_str().is_some_and(|h| has(x, h)), "UrlHasHost" => u.host().is_some(), "HostIsFqdn" => hosts::parts(u).dot.is_some(),
            "HostIsDomain" => matches!(u.host(), Some(url::Host::Domain(_))), "HostIsIp" => matches!(u.host(), Some(url::Host::Ipv4(_) | url::Host::Ipv6(_))), "HostIsIpv4" => matches!(u.host(), Some(url::Host::Ipv4(_))), "HostIsIpv6" => matches!(u.host(), Some(url::Host::Ipv6(_))),
            "QueryHasParam" => pairs(u).iter().any(|(k, _)| k == st(x)), "PathIs" => u.path() == st(x),
            "PartIs" => part_get(&x["part"], u) == get(&x["value"])?,
            "PartContains" => { let h = part_get(&x["part"], u).ok_or("PartIsNone")?; let nd = need(&x["value"])?; loc(&x["where"], &h, &nd).map_err(|_| "StringLocationError")? }
            "PartMatches" => { let h = part_get(&x["part"], u).ok_or("PartIsNone")?; self.mat(&x["matcher"], &h).map_err(|_| "StringMatcherError")? }
            "PartIsOneOf" => has(&x["values"], &part_get(&x["part"], u).ok_or("PartIsNone")?),
            "FlagIsSet" => self.flag(x).map_err(|_| "GetFlagError")?,
            "VarIs" => { let r = serde_json::json!({"type": x.get("type").cloned().unwrap_or("Params".into()), "name": x["name"]}); let a = self.var(&r).map_err(|_| "GetVarError")?; a == get(&x["value"])? }
            "StringIs" => { let a = get(&x["left"])?; a == get(&x["right"])? }
            "StringContains" => { let h = need(&x["value"])?; let nd = need(&x["substring"])?; loc(&x["where"], &h, &nd).map_err(|_| "StringLocationError")? }
            "StringMatches" => { let h = need(&x["value"])?; self.mat(&x["matcher"], &h).map_err(|_| "StringMatcherError")? }
            "Common" => { let (c, a) = call(x); let n = self.need(&c).map_err(m)?; let b = self.env.commons["conditions"].get(&n).ok_or("CommonConditionNotFound")?; let a = self.build(a).map_err(|_| "CommonCallArgsError")?; self.with(&a).cond(b)? }
            n => return connective(n, x, |y| self.cond(y)).unwrap_or_else(|| panic!("condition {n}")),
        })
    }
}
/// the connectives common to conditions, matchers, locators and character matchers; None = not a connective
pub fn connective(n: &str, x: &V, f: impl Fn(&V) -> Result<bool, E>) -> Option<Result<bool, E>> {
    Some(match n {
        "Always" => Ok(true), "Never" => Ok(false), "Error" => Err("ExplicitError"), "Debug" => f(x),
        "If" => match f(&x["if"]) { Err(e) => Err(e), Ok(true) => f(&x["then"]), Ok(false) => f(&x["else"]) },
        "Not" => f(x).map(|b| !b),
        "All" => { for y in arr(x) { match f(y) { Ok(true) => {} r => return Some(r) } } Ok(true) }
        "Any" => { for y in arr(x) { match f(y) { Ok(false) => {} r => return Some(r) } } Ok(false) }
        "TreatErrorAsPass" => Ok(f(x).unwrap_or(true)), "TreatErrorAsFail" => Ok(f(x).unwrap_or(false)),
        "TryElse" => match f(&x["try"]) { Ok(b) => Ok(b), Err(_) => f(&x["else"]).map_err(|_| "TryElseError") },
        "FirstNotError" => { let mut r = Ok(false); for y in arr(x) { r = f(y); if r.is_ok() { break } } r }
        _ => return None,
    })
}
fn brange(s: &V, e: &V, t: &str) -> Result<(usize, usize), E> { let (a, b) = rrange(int(s), e.as_i64().map(|e| e as isize), t.len()).ok_or("InvalidSlice")?; if t.is_char_boundary(a) && t.is_char_boundary(b) { Ok((a, b)) } else { Err("InvalidSlice") } }
fn between(t: &str, s: impl FnOnce() -> Result<String, E>, e: impl FnOnce() -> Result<String, E>) -> Result<String, E> {
    let s = s()?; let i = t.find(&s).ok_or("StartNotFound")? + s.len(); let e = e()?; let j = t[i..].find(&e).ok_or("EndNotFound")?; Ok(t[i..i + j].to_string())
}
fn rx(v: &V) -> Result<regex::Regex, E> { regex::Regex::new(v.as_str().unwrap_or_else(|| st(&v["pattern"]))).map_err(|_| "RegexError") }
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
fn b64enc(c: &V, t: &str) -> String {
    let al = |k: u32| match k { 62 => if c["alphabet"] == "Standard" { '+' } else { '-' }, 63 => if c["alphabet"] == "Standard" { '/' } else { '_' }, k => B64[k as usize] as char };
    let pad = c["encode_padding"].as_bool().unwrap_or(true); let mut o = String::new();
    for ch in t.as_bytes().chunks(3) { let w = ch.iter().fold(0u32, |a, b| a << 8 | *b as u32) << (8 * (3 - ch.len())); for k in 0..4 { if k <= ch.len() { o.push(al(w >> (18 - 6 * k) & 63)) } else if pad { o.push('=') } } }
    o
}
fn b64dec(c: &V, t: &str) -> Result<String, E> {
    let std_ = c["alphabet"] == "Standard"; let mode = c["decode_padding"].as_str().unwrap_or("Indifferent");
    let body = t.trim_end_matches('='); let pads = t.len() - body.len();
    let mut bits = vec![]; for b in body.bytes() { let k = match b { b'+' if std_ => 62, b'/' if std_ => 63, b'-' if !std_ => 62, b'_' if !std_ => 63, b => B64.iter().position(|x| *x == b).ok_or("Base64DecodeError")? as u32 }; bits.push(k) }
    let want = (4 - bits.len() % 4) % 4; if want == 3 || pads > want { return Err("Base64DecodeError") }
    match mode { "RequireCanonical" => if pads != want { return Err("Base64DecodeError") }, "RequireNone" => if pads != 0 { return Err("Base64DecodeError") }, _ => {} }
    let mut o = vec![]; for ch in bits.chunks(4) { let w = ch.iter().fold(0u32, |a, b| a << 6 | b) << (6 * (4 - ch.len())); let n = ch.len() - 1; for k in 0..n { o.push((w >> (16 - 8 * k)) as u8) } if w & ((1 << (24 - 8 * n)) - 1) != 0 { return Err("Base64DecodeError") } }
    String::from_utf8(o).map_err(|_| "FromUtf8Error")
}
pub fn loc(v: &V, h: &str, nd: &str) -> Result<bool, E> {
    if v.is_null() { return Ok(find(h, nd)) }
    let (n, x) = var(v);
    if let Some(r) = connective(n, x, |y| loc(y, h, nd)) { return r }
    let at = |x: &V| rbound(int(x), h.len()).filter(|i| h.is_char_boundary(*i)).ok_or("InvalidSlice");
    let (hb, nb) = (h.as_bytes(), nd.as_bytes());
    Ok(match n {
        "Anywhere" => find(h, nd), "Start" => hb.len() >= nb.len() && &hb[..nb.len()] == nb, "End" => hb.len() >= nb.len() && &hb[hb.len() - nb.len()..] == nb, "Equals" => hb == nb,
        "StartsAt" => { let i = at(x)?; loc(&"Start".into(), &h[i..], nd)? } "EndsAt" => { let i = at(x)?; loc(&"End".into(), &h[..i], nd)? }
        "After" => { let i = at(x)?; find(&h[i..], nd) } "Before" => { let i = at(x)?; find(&h[..i], nd) }
        "Range" => { let (a, b) = brange(&x["start"], &x["end"], h)?; loc(&x["location"], &h[a..b], nd)? }
        "AnySegment" => { for s in split(h, st(&x["split"])) { if loc(&x["location"], &s, nd)? { return Ok(true) } } false }
        "NthSegment" => { let s = split(h, st(&x["split"])); let k = ridx(int(&x["n"]), s.len()).ok_or("SegmentNotFound")?; loc(&x["location"], &s[k], nd)? }
        n => panic!("location {n}"),
    })
}
fn find(h: &str, nd: &str) -> bool { nd.is_empty() || h.as_bytes().windows(nd.len()).any(|w| w == nd.as_bytes()) }
pub fn chr(v: &V, c: char) -> Result<bool, E> {
    let (n, x) = var(v);
    if let Some(r) = connective(n, x, |y| chr(y, c)) { return r }
    let o = c as u32; let one = |x: &V| st(x).chars().next().unwrap();
    let (up, lo, dg) = ((65..=90).contains(&o), (97..=122).contains(&o), (48..=57).contains(&o));
    Ok(match n {
        "Equals" => one(x) == c, "Between" => one(&x["min"]) <= c && c <= one(&x["max"]), "IsOneOf" => has(x, &c.to_string()),
        "IsAlphabetic" => char::is_alphabetic(c), "IsAlphanumeric" => char::is_alphabetic(c) || char::is_numeric(c), "IsAscii" => o < 128,
        "IsAsciiAlphabetic" => up || lo, "IsAsciiAlphanumeric" => up || lo || dg, "IsAsciiControl" => o < 32 || o == 127, "IsAsciiDigit" | "IsDigit" => dg, "IsAsciiGraphic" => (33..=126).contains(&o),
        "IsAsciiHexdigit" => dg || (65..=70).contains(&o) || (97..=102).contains(&o), "IsAsciiLowercase" => lo, "IsAsciiPunctuation" => (33..=126).contains(&o) && !(up || lo || dg), "IsAsciiUppercase" => up,
        "IsAsciiWhitespace" => matches!(o, 9 | 10 | 12 | 13 | 32), "IsControl" => o < 32 || (127..=159).contains(&o),
        "IsDigitRadix" => { let r = x.as_u64().unwrap(); if !(2..=36).contains(&r) { return Err("InvalidRadix") } let d = if dg { o - 48 } else if up { o - 55 } else if lo { o - 87 } else { 99 }; (d as u64) < r }
        "IsLowercase" => char::is_lowercase(c), "IsNumeric" => char::is_numeric(c), "IsUppercase" => char::is_uppercase(c), "IsWhitespace" => char::is_whitespace(c),
        n => panic!("char matcher {n}"),
    })
}
/// Runs that change the task's state.
pub struct Run<'a> { pub env: &'a Env, pub args: &'a Args }
impl<'a> Run<'a> {
    fn view<'b>(&'b self, s: &'b St) -> Cxt<'b> { Cxt { env: self.env, s, args: self.args } }
    fn inner<'b>(&'b self, args: &'b Args) -> Run<'b> { Run { env: self.env, args } }
    pub fn mapper(&self, v: &V, s: &mut St) -> Result<(), E> {
        let (n, x) = var(v);
        match n {
            "None" => {} "Error" => return Err("ExplicitError"), "Debug" => return self.mapper(x, s),
            "If" => { if self.view(s).cond(&x["condition"])? { return self.mapper(&x["mapper"], s) } else if !x["else_mapper"].is_null() { return self.mapper(&x["else_mapper"], s) } }
            "ConditionChain" => for l in arr(x) { if self.view(s).cond(&l["condition"])? { return self.mapper(&l["mapper"], s) } },
            "All" => for y in arr(x) { self.mapper(y, s)? },
            "PartMap" => if let Some(m) = entry(x, part_get(&x["part"], &s.url).as_deref()) { return self.mapper(m, s) },
            "StringMap" => { let k = self.view(s).ss(&x["value"])?; if let Some(m) = entry(x, k.as_deref()) { return self.mapper(m, s) } }
            "IgnoreError" => { let _ = self.mapper(x, s); }
            "RevertOnError" => { let mut c = s.clone(); self.mapper(x, &mut c)?; *s = c; }
            "TryElse" => if self.mapper(&x["try"], s).is_err() { return self.mapper(&x["else"], s) },
            "FirstNotError" => { let mut r = Ok(()); for y in arr(x) { r = self.mapper(y, s); if r.is_ok() { break } } return r }
            "RemoveQuery" => s.url.set_query(None),
            "RemoveQueryParam" => if s.url.query().is_some() { let k = self.view(s).need(x)?; keep(s, |n| Ok(n != k))? },
            "RemoveQueryParams" => if s.url.query().is_some() { keep(s, |n| Ok(!has(x, n)))? },
            "AllowQueryParams" => if s.url.query().is_some() { keep(s, |n| Ok(has(x, n)))? },
            "RemoveQueryParamsMatching" => if s.url.query().is_some() { let c = s.clone(); keep(s, |n| self.view(&c).mat(x, n).map(|b| !b))? },
            "AllowQueryParamsMatching" => if s.url.query().is_some() { let c = s.clone(); keep(s, |n| self.view(&c).mat(x, n))? },
            "GetUrlFromQueryParam" => { let k = self.view(s).need(x)?; let t = pairs(&s.url).into_iter().find(|(n, _)| *n == k).ok_or("CannotFindQueryParam")?.1; s.url = Url::parse(&t).map_err(|_| "UrlParseError")? }
            "SetHost" => s.url = part_set(&"Host".into(), &s.url, x.as_str()).ok_or("SetHostError")?,
            "Join" => { let t = self.view(s).need(x)?; s.url = s.url.join(&t).map_err(|_| "UrlParseError")? }
            "SetPart" => { let t = self.view(s).ss(&x["value"])?; s.url = part_set(&x["part"], &s.url, t.as_deref()).ok_or("UrlPartSetError")? }
            "ModifyPart" => if let Some(mut t) = part_get(&x["part"], &s.url) { self.view(s).sm(&x["modification"], &mut t)?; s.url = part_set(&x["part"], &s.url, Some(&t)).ok_or("UrlPartSetError")? },
            "CopyPart" => { let t = part_get(&x["from"], &s.url); s.url = part_set(&x["to"], &s.url, t.as_deref()).ok_or("UrlPartSetError")? }
            "MovePart" => { let t = part_get(&x["from"], &s.url); let u = part_set(&x["to"], &s.url, t.as_deref()).ok_or("UrlPartSetError")?; s.url = part_set(&x["from"], &u, None).ok_or("UrlPartSetError")? }
            "SetScratchpadFlag" => { let k = self.view(s).need(&x["name"])?; if x["value"] == true { s.flags.insert(k); } else { s.flags.remove(&k); } }
            "SetScratchpadVar" => { let t = self.view(s).ss(&x["value"])?; let k = self.view(s).need(&x["name"])?; match t { Some(t) => { s.vars.insert(k, t); } None => { s.vars.remove(&k); } } }
            "ModifyScratchpadVar" => { let k = self.view(s).need(&x["name"])?; if let Some(mut t) = s.vars.get(&k).cloned() { self.view(s).sm(&x["modification"], &mut t)?; s.vars.insert(k, t); } }
            "Rule" => return self.rule(x, s), "Rules" => return self.rules(x, s),
            "Retry" => { let l = x["limit"].as_u64().unwrap_or(10); let mut r = Ok(()); for _ in 0..l { r = self.mapper(&x["mapper"], s); if r.is_ok() { break } } return r }
            "Common" => { let (c, a) = call(x); let n = self.view(s).need(&c)?; let b = self.env.commons["mappers"].get(&n).ok_or("CommonNotFound")?; let a = self.view(s).build(a)?; return self.inner(&a).mapper(b, s) }
            n => panic!("mapper {n}"),
        }
        Ok(())
    }
    pub fn rules(&self, v: &V, s: &mut St) -> Result<(), E> { for r in arr(v) { self.rule(r, s)? } Ok(()) }
    pub fn rule(&self, v: &V, s: &mut St) -> Result<(), E> {
        if v.get("condition").is_some() && v.get("mapper").is_some() { if self.view(s).cond(&v["condition"])? { return self.mapper(&v["mapper"], s) } else if !v["else_mapper"].is_null() { return self.mapper(&v["else_mapper"], s) } return Ok(()) }
        let (n, x) = var(v);
        match n {
            "PartMap" | "PartRuleMap" | "PartRulesMap" | "StringMap" | "StringRuleMap" | "StringRulesMap" => {
                let k = if n.starts_with("Part") { part_get(&x["part"], &s.url) } else { self.view(s).ss(&x["value"])? };
                if let Some(b) = entry(x, k.as_deref()) { return if n.ends_with("RuleMap") { self.rule(b, s) } else if n.ends_with("RulesMap") { self.rules(b, s) } else { self.mapper(b, s) } }
            }
            "Repeat" => for _ in 0..x["limit"].as_u64().unwrap_or(10) { let old = s.clone(); self.rules(&x["rules"], s)?; if s.url.as_str() == old.url.as_str() && s.flags == old.flags && s.vars == old.vars { break } },
            "SharedCondition" => if self.view(s).cond(&x["condition"])? { return self.rules(&x["rules"], s) },
            "Rules" => return self.rules(x, s), "Mapper" => return self.mapper(x, s),
            "Common" => { let (c, a) = call(x); let n = self.view(s).need(&c)?; let b = self.env.commons["rules"].get(&n).ok_or("CommonNotFound")?; let a = self.view(s).build(a)?; return self.inner(&a).rule(b, s) }
            n => panic!("rule {n}"),
        }
        Ok(())
    }
}
fn keep(s: &mut St, f: impl Fn(&str) -> Result<bool, E>) -> Result<(), E> { let mut o = vec![]; for (k, v) in pairs(&s.url) { if f(&k)? { o.push((k, v)) } } put_pairs(&mut s.url, &o); Ok(()) }
