//! Random configuration fragments (as config JSON), worlds for them to run in, and the comparison drivers.
use crate::{gen_, gen_::*, parts, real::*, sem::*, *};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use url_cleaner::types::*;
pub type V = Value;
/// lvl: commons of level < lvl may be called; act: failing leaves allowed etc.
#[derive(Clone, Copy)]
pub struct G { pub lvl: usize }
const T: &[&str] = &["", "a", "b", "ab", "abc", "a.b", "a.b.c", "x", "www.", "é", "日本", "A", "a b", "é.ß.a", "a-b-a", "https://x.example/p?a=1", "f0", "v0", "v1", "k1", "k2", "zz", "%41", "a=1&b=2&a=3", "aXbXc", "🙂a", "{\"a\":\"b\"}", "YQ==", ".", "..", "example.com", "u", "/p", "1"];
const SMALL: &[&str] = &["", "a", "b", ".", "ab", "é", "a.", "X", "-", "&", "=", "c", "\u{301}"];
pub fn s(r: &mut Rng) -> String { match r.below(8) { 0 => text(r, 8), 1 => r.pick(SMALL).to_string(), _ => r.pick(T).to_string() } }
fn sm_(r: &mut Rng) -> String { if r.chance(1, 6) { s(r) } else { r.pick(SMALL).to_string() } }
fn idx(r: &mut Rng) -> isize { if r.chance(1, 12) { index(r) } else { r.range(-5, 5) as isize } }
fn oidx(r: &mut Rng) -> V { if r.chance(1, 3) { V::Null } else { json!(idx(r)) } }
pub fn opart(r: &mut Rng) -> V { if r.chance(1, 3) { json!(*r.pick(&["Host", "Path", "Query", "Fragment", "Username", "Domain", "Subdomain", "DomainMiddle", "Port", "Whole"])) } else { parts::part(r) } }
fn name(r: &mut Rng, p: &str) -> String { format!("{p}{}", r.below(3)) }
fn many(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> V) -> V { let k = r.below(n + 1); V::Array((0..k).map(|_| f(r)).collect()) }
fn strs(r: &mut Rng, n: usize) -> V { let k = r.below(n + 1); let v: BTreeSet<String> = (0..k).map(|_| s(r)).collect(); json!(v) }
const RX: &[&str] = &["a", "a+", "(a)(b)?", "[a-z]+", "\\.", "^", "$", "é", "(?P<n>b)", "(", "a|", "\\b"];
const RP: &[&str] = &["x", "$1", "${n}", "$0$0", "", "$2-"];
fn rep(r: &mut Rng) -> V { json!(*r.pick(RP)) }
pub fn map(r: &mut Rng, key: (&str, V), n: usize, mut f: impl FnMut(&mut Rng) -> V, keys: &[&str]) -> V {
    let mut m = Map::new(); for _ in 0..r.below(n + 1) { m.insert(r.pick(keys).to_string(), f(r)); }
    let mut o = Map::new(); o.insert(key.0.into(), key.1); o.insert("map".into(), V::Object(m));
    if r.chance(1, 3) { o.insert("if_null".into(), f(r)); } if r.chance(1, 3) { o.insert("else".into(), f(r)); }
    V::Object(o)
}
const KEYS: &[&str] = &["a", "b", "k1", "k2", "example.com", "www.example.com", "/", "/a", "1", "x", ""];
pub fn flag(r: &mut Rng, g: G, d: usize) -> V { let n = if d > 0 && r.chance(1, 8) { ss(r, g, d - 1) } else { json!(name(r, "f")) }; if r.chance(1, 4) && n.is_string() { n } else { json!({"type": *r.pick(&["Params", "Scratchpad", "Scratchpad", "Common"]), "name": n}) } }
pub fn vref(r: &mut Rng, g: G, d: usize) -> V { let n = if d > 0 && r.chance(1, 8) { ss(r, g, d - 1) } else { json!(name(r, "v")) }; if r.chance(1, 4) && n.is_string() { n } else { json!({"type": *r.pick(&["Params", "JobContext", "TaskContext", "Common", "Scratchpad", "Scratchpad", "Env"]), "name": n}) } }
pub fn ccall(r: &mut Rng, g: G, d: usize) -> V {
    let l = r.below(g.lvl.max(1)); let n = if g.lvl == 0 || r.chance(1, 10) { json!("missing") } else { json!(format!("c{l}")) };
    if r.chance(1, 3) { return n }
    let n = if r.chance(1, 12) { ss(r, G { lvl: 0 }, 0) } else { n };
    let mut vars = Map::new(); for _ in 0..r.below(3) { vars.insert(name(r, "v"), ss(r, g, d.saturating_sub(1))); }
    let fl: BTreeSet<String> = (0..r.below(3)).map(|_| name(r, "f")).collect();
    json!({"name": n, "args": {"flags": fl, "vars": vars}})
}
pub fn ss(r: &mut Rng, g: G, d: usize) -> V {
    if d == 0 || r.chance(1, 4) { return match r.below(12) { 0 => V::Null, 1 => json!({"Error": "e"}), 2 => json!({"Part": opart(r)}), 3 => json!({"Var": vref(r, g, 0)}), 4 => json!({"String": s(r)}), _ => json!(s(r)) } }
    let d = d - 1;
    match r.below(23) {
        0 => json!({"ErrorToNone": ss(r, g, d)}), 1 => json!({"ErrorToEmptyString": ss(r, g, d)}), 2 => json!({"TryElse": {"try": ss(r, g, d), "else": ss(r, g, d)}}),
        3 => json!({"NoneToEmptyString": ss(r, g, d)}), 4 => json!({"NoneTo": {"value": ss(r, g, d), "if_none": ss(r, g, d)}}),
        5 => json!({"Join": {"sources": many(r, 3, |r| ss(r, g, d)), "join": sm_(r)}}),
        6 => { let f = flag(r, g, 0); let f = if f.is_string() { json!({"name": f}) } else { f }; let mut o = f.as_object().unwrap().clone(); o.insert("then".into(), ss(r, g, d)); o.insert("else".into(), ss(r, g, d)); json!({"IfFlag": o}) }
        7 => json!({"IfStringMatches": {"value": ss(r, g, d), "matcher": mat(r, g, d), "then": ss(r, g, d), "else": ss(r, g, d)}}),
        8 => json!({"IfStringIsNone": {"value": ss(r, g, d), "then": ss(r, g, d), "else": ss(r, g, d)}}),
        9 => { let k = ss(r, g, d); json!({"Map": map(r, ("value", k), 3, |r| ss(r, g, d), KEYS)}) }
        10 => json!({"Part": opart(r)}), 11 => json!({"ExtractPart": {"value": if r.chance(1, 2) { json!(url_string(r)) } else { ss(r, g, d) }, "part": opart(r)}}),
        12 => json!({"Var": vref(r, g, d)}), 13 => json!({"ParamsMap": {"name": if r.chance(1, 8) { ss(r, g, d) } else { json!(name(r, "m")) }, "key": if r.chance(1, 3) { ss(r, g, d) } else { json!(*r.pick(KEYS)) }}}),
        14 => json!({"ParamsNamedPartitioning": {"name": if r.chance(1, 8) { ss(r, g, d) } else { json!(name(r, "p")) }, "element": if r.chance(1, 3) { ss(r, g, d) } else { json!(*r.pick(KEYS)) }}}),
        15 | 16 => json!({"Modified": {"value": ss(r, g, d), "modification": sm(r, g, d)}}),
        17 => json!({"ExtractBetween": {"value": ss(r, g, d), "start": if r.chance(1, 4) { ss(r, g, d) } else { json!(sm_(r)) }, "end": if r.chance(1, 4) { ss(r, g, d) } else { json!(sm_(r)) }}}),
        18 => json!({"RegexFind": {"value": ss(r, g, d), "regex": *r.pick(RX)}}), 19 | 20 => json!({"Common": ccall(r, g, d)}),
        21 => V::Null, _ => json!({"Debug": ss(r, g, d)}),
    }
}
pub fn small_ss(r: &mut Rng, g: G, d: usize) -> V { match r.below(10) { 0 => ss(r, g, d), 1 => V::Null, _ => json!(sm_(r)) } }
pub fn sm(r: &mut Rng, g: G, d: usize) -> V {
    let leaf = d == 0 || r.chance(1, 2); let d = d.saturating_sub(1);
    if !leaf { return match r.below(12) {
        0 => json!({"Debug": sm(r, g, d)}), 1 => json!({"IgnoreError": sm(r, g, d)}), 2 => json!({"RevertOnError": sm(r, g, d)}), 3 => json!({"TryElse": {"try": sm(r, g, d), "else": sm(r, g, d)}}),
        4 | 5 => json!({"All": many(r, 4, |r| sm(r, g, d))}), 6 => json!({"FirstNotError": many(r, 3, |r| sm(r, g, d))}),
        7 => { let mut o = json!({"condition": cond(r, g, d), "then": sm(r, g, d)}); if r.chance(1, 2) { o["else"] = sm(r, g, d) } json!({"If": o}) }
        8 => { let mut o = json!({"matcher": mat(r, g, d), "then": sm(r, g, d)}); if r.chance(1, 2) { o["else"] = sm(r, g, d) } json!({"IfMatches": o}) }
        9 => { let k = ss(r, g, d); json!({"StringMap": map(r, ("value", k), 3, |r| sm(r, g, d), KEYS)}) }
        10 => json!({"Common": ccall(r, g, d)}), _ => json!({"All": [sm(r, g, d), {"Error": "e"}]}),
    } }
    match r.below(38) {
        0 => json!({"Error": "e"}), 1 => json!("None"), 2 => json!({"Set": ss(r, g, d)}), 3 => json!({"Append": small_ss(r, g, d)}), 4 => json!({"Prepend": small_ss(r, g, d)}),
        5 => json!({"Replace": {"find": small_ss(r, g, d), "replace": small_ss(r, g, d)}}), 6 => json!({"Replacen": {"find": small_ss(r, g, d), "replace": small_ss(r, g, d), "count": r.below(4)}}),
        7 => json!({"ReplaceRange": {"start": idx(r), "end": oidx(r), "replace": small_ss(r, g, d)}}), 8 => json!("Lowercase"), 9 => json!("Uppercase"),
        10 => json!({"StripPrefix": small_ss(r, g, d)}), 11 => json!({"StripSuffix": small_ss(r, g, d)}), 12 => json!({"StripMaybePrefix": small_ss(r, g, d)}), 13 => json!({"StripMaybeSuffix": small_ss(r, g, d)}),
        14 => json!({"Insert": {"index": idx(r), "value": small_ss(r, g, d)}}), 15 => json!({"RemoveChar": idx(r)}), 16 => json!({"KeepRange": {"start": idx(r), "end": oidx(r)}}),
        17 => json!({"RegexCaptures": {"regex": *r.pick(RX), "replace": rep(r)}}), 18 => json!({"JoinAllRegexCaptures": {"regex": *r.pick(RX), "replace": rep(r), "join": sm_(r)}}), 19 => json!({"RegexFind": *r.pick(RX)}),
        20 => json!({"RegexReplace": {"regex": *r.pick(RX), "replace": rep(r)}}), 21 => json!({"RegexReplaceAll": {"regex": *r.pick(RX), "replace": rep(r)}}), 22 => json!({"RegexReplacen": {"regex": *r.pick(RX), "n": r.below(3), "replace": rep(r)}}),
        23 => if r.chance(1, 3) { json!("UrlEncode") } else { json!({"UrlEncode": *r.pick(&["JsEncodeUriComponent", "JsEncodeUri", "NonAlphanumeric"])}) }, 24 => json!("UrlDecode"),
        25 => if r.chance(1, 2) { json!("Base64Encode") } else { json!({"Base64Encode": b64(r)}) }, 26 => if r.chance(1, 2) { json!("Base64Decode") } else { json!({"Base64Decode": b64(r)}) },
        27 => json!({"JsonPointer": *r.pick(&["/a", "", "/b", "/a/0"])}), 28 => json!({"RemoveQueryParamsMatching": mat(r, g, d)}), 29 => json!({"AllowQueryParamsMatching": mat(r, g, d)}),
        30 => json!({"ExtractBetween": {"start": small_ss(r, g, d), "end": small_ss(r, g, d)}}), 31 => json!({"KeepNthSegment": {"split": small_ss(r, g, d), "index": idx(r)}}),
        32 => json!({"KeepSegmentRange": {"split": small_ss(r, g, d), "start": idx(r), "end": oidx(r)}}), 33 => json!({"SetSegment": {"split": small_ss(r, g, d), "index": idx(r), "value": small_ss(r, g, d)}}),
        34 => json!({"InsertSegment": {"split": small_ss(r, g, d), "index": idx(r), "value": small_ss(r, g, d)}}), 35 => json!({"Append": ss(r, g, d)}), _ => json!({"Append": s(r)}),
    }
}
fn b64(r: &mut Rng) -> V { json!({"alphabet": *r.pick(&["UrlSafe", "Standard"]), "encode_padding": r.chance(1, 2), "decode_padding": *r.pick(&["Indifferent", "RequireCanonical", "RequireNone"])}) }
/// connectives over operands made by `f`
pub fn conn(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> V) -> V {
    match r.below(11) {
        0 => json!({"If": {"if": f(r), "then": f(r), "else": f(r)}}), 1 => json!({"Not": f(r)}), 2 | 3 => json!({"All": many(r, 4, f)}), 4 | 5 => json!({"Any": many(r, 4, f)}),
        6 => json!({"TreatErrorAsPass": f(r)}), 7 => json!({"TreatErrorAsFail": f(r)}), 8 => json!({"TryElse": {"try": f(r), "else": f(r)}}), 9 => json!({"FirstNotError": many(r, 3, f)}), _ => json!({"Debug": f(r)}),
    }
}
pub fn leaf3(r: &mut Rng, err: V) -> V { match r.below(3) { 0 => json!("Always"), 1 => json!("Never"), _ => err } }
pub fn mat(r: &mut Rng, g: G, d: usize) -> V {
    if d > 0 && r.chance(2, 5) { return conn(r, |r| mat(r, g, d - 1)) }
    let d = d.saturating_sub(1);
    match r.below(22) {
        0 | 1 => leaf3(r, json!({"Error": "e"})), 2 => json!({"Contains": {"value": small_ss(r, g, d), "where": loc(r, d)}}), 3 => json!({"Contains": {"value": small_ss(r, g, d)}}),
        4 => json!({"ContainsAny": {"values": many(r, 3, |r| small_ss(r, g, d)), "where": loc(r, d)}}), 5 => json!({"ContainsAnyInList": {"where": loc(r, d), "list": if r.chance(1, 8) { ss(r, g, d) } else { json!(name(r, "l")) }}}),
        6 => json!({"Is": ss(r, g, d)}), 7 => json!({"IsOneOf": strs(r, 4)}), 8 => json!({"InSet": if r.chance(1, 8) { ss(r, g, d) } else { json!(name(r, "s")) }}), 9 => json!({"Regex": *r.pick(RX)}), 10 => json!({"Glob": *r.pick(&["a*", "*", "?", "[ab]*", "*.b", "é*", ""])}),
        11 => json!({"Modified": {"modification": sm(r, g, d), "matcher": mat(r, g, d)}}), 12 => json!({"OnlyTheseChars": many(r, 4, |r| json!(*r.pick(&["a", "b", "é", ".", "A"])))}),
        13 => json!({"AllCharsMatch": chr(r, d)}), 14 => json!({"AnyCharMatches": chr(r, d)}), 15 => json!("IsAscii"),
        16 => json!({"NthSegmentMatches": {"split": small_ss(r, g, d), "n": idx(r), "matcher": mat(r, g, d)}}), 17 => json!({"AnySegmentMatches": {"split": small_ss(r, g, d), "matcher": mat(r, g, d)}}), 18 => json!({"LengthIs": r.below(6)}),
        19 => json!({"SegmentsStartWith": {"split": small_ss(r, g, d), "value": small_ss(r, g, d)}}), 20 => json!({"SegmentsEndWith": {"split": small_ss(r, g, d), "value": small_ss(r, g, d)}}), _ => json!({"Common": ccall(r, g, d)}),
    }
}
pub fn loc(r: &mut Rng, d: usize) -> V {
    if d > 0 && r.chance(1, 3) { return conn(r, |r| loc(r, d - 1)) }
    let d = d.saturating_sub(1);
    match r.below(14) {
        0 => leaf3(r, json!({"Error": "e"})), 1 => json!("Anywhere"), 2 => json!("Start"), 3 => json!("End"), 4 => json!("Equals"), 5 | 6 => json!({*r.pick(&["StartsAt", "EndsAt"]): idx(r)}), 7 | 8 => json!({*r.pick(&["After", "Before"]): idx(r)}),
        9 | 10 => json!({"Range": {"start": idx(r), "end": oidx(r), "location": loc(r, d)}}), 11 => json!({"AnySegment": {"split": sm_(r), "location": loc(r, d)}}), 12 => json!({"NthSegment": {"split": sm_(r), "n": idx(r), "location": loc(r, d)}}), _ => json!("Anywhere"),
    }
}
pub const CLASSES: &[&str] = &["IsAlphabetic", "IsAlphanumeric", "IsAscii", "IsAsciiAlphabetic", "IsAsciiAlphanumeric", "IsAsciiControl", "IsAsciiDigit", "IsAsciiGraphic", "IsAsciiHexdigit", "IsAsciiLowercase", "IsAsciiPunctuation", "IsAsciiUppercase", "IsAsciiWhitespace", "IsControl", "IsDigit", "IsLowercase", "IsNumeric", "IsUppercase", "IsWhitespace"];
const CH: &[&str] = &["a", "b", "z", "A", "Z", "0", "9", "é", ".", "日", "\u{0}", "ß", "~", " ", "f", "g"];
pub fn chr(r: &mut Rng, d: usize) -> V {
    if d > 0 && r.chance(1, 3) { return conn(r, |r| chr(r, d - 1)) }
    match r.below(8) { 0 => leaf3(r, json!("Error")), 1 => json!({"Equals": *r.pick(CH)}), 2 => json!({"Between": {"min": *r.pick(CH), "max": *r.pick(CH)}}), 3 => { let n = r.below(4); let v: BTreeSet<&str> = (0..n).map(|_| *r.pick(CH)).collect(); json!({"IsOneOf": v}) } 4 => json!({"IsDigitRadix": r.below(40)}), _ => json!(*r.pick(CLASSES)) }
}
const FILT: &[&str] = &["ExplicitError", "PartIsNone", "StringSourceIsNone", "StringMatcherError", "StringLocationError", "StringSourceError", "TryElseError", "CommonConditionNotFound", "CommonCallArgsError", "GetFlagError", "GetVarError"];
fn filt(r: &mut Rng) -> V { if r.chance(1, 2) { V::Null } else { let n = r.below(5); let v: BTreeSet<&str> = (0..n).map(|_| *r.pick(FILT)).collect(); json!(v) } }
pub fn econd(r: &mut Rng, g: G) -> V { match r.below(8) { 0 => json!({"FlagIsSet": {"type": "Common", "name": "f0"}}), 1 => json!({"StringMatches": {"value": null, "matcher": "Always"}}), 2 => json!({"PartMatches": {"part": "Password", "matcher": "Always"}}), 3 => json!({"StringIs": {"left": {"Error": "e"}, "right": "a"}}), 4 => json!({"StringMatches": {"value": "a", "matcher": {"Error": "e"}}}), 5 => json!({"Common": ccall(r, g, 0)}), _ => json!({"Error": "e"}) } }
pub fn with_filter(tag: &str, c: V, f: V) -> V { let mut o = match c { V::String(s) => json!({s: null}).as_object().unwrap().clone(), V::Object(o) => o, _ => panic!() }; if !f.is_null() { o.insert("filter".into(), f); } json!({tag: o}) }
pub fn cond_conn(r: &mut Rng, g: G, mut f: impl FnMut(&mut Rng) -> V) -> V {
    let _ = g;
    match r.below(10) { 0 => { let c = f(r); let x = filt(r); with_filter("TreatErrorAsPass", c, x) } 1 => { let c = f(r); let x = filt(r); with_filter("TreatErrorAsFail", c, x) } 2 => { let mut o = json!({"try": f(r), "else": f(r)}); let x = filt(r); if !x.is_null() { o["filter"] = x } json!({"TryElse": o}) }
        3 => json!({"If": {"if": f(r), "then": f(r), "else": f(r)}}), 4 => json!({"Not": f(r)}), 5 | 6 => json!({"All": many(r, 4, f)}), 7 | 8 => json!({"Any": many(r, 4, f)}), _ => json!({"Debug": f(r)}) }
}
pub fn cond_atom(r: &mut Rng, g: G, d: usize) -> V {
    let hv = |r: &mut Rng| if r.chance(1, 5) { V::Null } else { json!(*r.pick(&["example.com", "www.example.com", "example.co.uk", "www", "a.b", "a", "example", "com", "co.uk", "www.example", "", "127.0.0.1", "[::1]", "localhost", "com.", "example.com.", "x", "b.a", "ck", "www.com"])) };
    match r.below(30) {
        0 => json!({"HostIs": hv(r)}), 1 => json!({"SubdomainIs": hv(r)}), 2 => json!({"RegDomainIs": hv(r)}), 3 => json!({"DomainIs": hv(r)}), 4 => json!({"DomainMiddleIs": hv(r)}), 5 => json!({"NotDomainSuffixIs": hv(r)}), 6 => json!({"DomainSuffixIs": hv(r)}),
        7 => { let n = r.below(4); let v: BTreeSet<&str> = (0..n).map(|_| *r.pick(gen_::HOSTS)).collect(); json!({"HostIsOneOf": v}) } 8 => json!("UrlHasHost"), 9 => json!("HostIsFqdn"), 10 => json!("HostIsDomain"), 11 => json!("HostIsIp"), 12 => json!("HostIsIpv4"), 13 => json!("HostIsIpv6"),
        14 | 15 => json!({"QueryHasParam": *r.pick(parts::NAMES)}), 16 => json!({"PathIs": *r.pick(&["/", "/a", "/a/b", "", "/p", "/a/b/"])}),
        17 | 18 => json!({"PartIs": {"part": opart(r), "value": if r.chance(1, 2) { hv(r) } else { ss(r, g, d) }}}), 19 => json!({"PartContains": {"part": opart(r), "value": small_ss(r, g, d), "where": loc(r, d)}}), 20 => json!({"PartMatches": {"part": opart(r), "matcher": mat(r, g, d)}}), 21 => json!({"PartIsOneOf": {"part": opart(r), "values": ["", "a", "/", "www", "example.com", "443", "1"]}}),
        22 | 23 => json!({"FlagIsSet": flag(r, g, d)}),
        24 => { let v = vref(r, g, 0); let v = if v.is_string() { json!({"name": v}) } else { v }; let mut o = v.as_object().unwrap().clone(); o.insert("value".into(), ss(r, g, d)); json!({"VarIs": o}) }
        25 => json!({"StringIs": {"left": ss(r, g, d), "right": ss(r, g, d)}}), 26 => json!({"StringContains": {"value": ss(r, g, d), "substring": small_ss(r, g, d), "where": loc(r, d)}}), 27 => json!({"StringMatches": {"value": ss(r, g, d), "matcher": mat(r, g, d)}}),
        28 => { let p = opart(r); json!({"PartMap": map(r, ("part", p), 3, |r| cond(r, g, 0), KEYS)}) } _ => { let p = ss(r, g, d); json!({"StringMap": map(r, ("value", p), 3, |r| cond(r, g, 0), KEYS)}) }
    }
}
pub fn cond(r: &mut Rng, g: G, d: usize) -> V {
    if d > 0 && r.chance(2, 5) { return cond_conn(r, g, |r| cond(r, g, d - 1)) }
    match r.below(8) { 0 | 1 => json!(*r.pick(&["Always", "Never"])), 2 => econd(r, g), 3 => json!({"Common": ccall(r, g, d)}), _ => cond_atom(r, g, d.saturating_sub(1)) }
}
pub fn mapper_leaf(r: &mut Rng, g: G, d: usize) -> V {
    match r.below(26) {
        0 => json!("None"), 1 | 2 => json!({"Error": "e"}), 3 => json!("RemoveQuery"), 4 => json!({"RemoveQueryParam": if r.chance(1, 5) { ss(r, g, d) } else { json!(*r.pick(parts::NAMES)) }}),
        5 => json!({"RemoveQueryParams": qnames(r)}), 6 => json!({"AllowQueryParams": qnames(r)}), 7 => json!({"RemoveQueryParamsMatching": mat(r, g, d)}), 8 => json!({"AllowQueryParamsMatching": mat(r, g, d)}), 9 => json!({"GetUrlFromQueryParam": *r.pick(&["a", "b", "url"])}),
        10 => json!({"SetHost": parts::value(r)}), 11 => json!({"Join": if r.chance(1, 4) { ss(r, g, d) } else { json!(*r.pick(&["/x", "y", "?q=1", "#z", "//other.example/a", "https://[", "../..", ""])) }}),
        12 | 13 => json!({"SetPart": {"part": opart(r), "value": if r.chance(1, 3) { ss(r, g, d) } else { json!(parts::value(r)) }}}), 14 | 15 => json!({"ModifyPart": {"part": opart(r), "modification": sm(r, g, d)}}),
        16 => json!({"CopyPart": {"from": opart(r), "to": opart(r)}}), 17 | 18 => json!({"MovePart": {"from": opart(r), "to": opart(r)}}),
        19 | 20 => json!({"SetScratchpadFlag": {"name": if r.chance(1, 8) { ss(r, g, d) } else { json!(name(r, "f")) }, "value": r.chance(1, 2)}}), 21 | 22 => json!({"SetScratchpadVar": {"name": if r.chance(1, 8) { ss(r, g, d) } else { json!(name(r, "v")) }, "value": ss(r, g, d)}}),
        23 => json!({"ModifyScratchpadVar": {"name": name(r, "v"), "modification": sm(r, g, d)}}), 24 => json!({"ModifyPart": {"part": *r.pick(&["Path", "Query", "Fragment"]), "modification": {"Append": *r.pick(&["a", "/a", "&a=1"])}}}), _ => json!({"SetPart": {"part": "Fragment", "value": {"Join": {"sources": [{"NoneToEmptyString": {"Part": "Fragment"}}, "x"], "join": ""}}}}),
    }
}
pub fn qnames(r: &mut Rng) -> V { let n = r.below(4); let v: BTreeSet<&str> = (0..n).map(|_| *r.pick(parts::NAMES)).collect(); json!(v) }
pub fn mapper(r: &mut Rng, g: G, d: usize) -> V {
    if d == 0 || r.chance(1, 3) { return mapper_leaf(r, g, d.min(1)) }
    let d = d - 1;
    match r.below(18) {
        0 => json!({"Debug": mapper(r, g, d)}), 1 => { let mut o = json!({"condition": cond(r, g, d), "mapper": mapper(r, g, d)}); if r.chance(1, 2) { o["else_mapper"] = mapper(r, g, d) } json!({"If": o}) }
        2 => json!({"ConditionChain": many(r, 3, |r| json!({"condition": cond(r, g, d), "mapper": mapper(r, g, d)}))}), 3..=5 => json!({"All": many(r, 4, |r| mapper(r, g, d))}),
        6 => { let p = opart(r); json!({"PartMap": map(r, ("part", p), 3, |r| mapper(r, g, d), KEYS)}) } 7 => { let p = ss(r, g, d); json!({"StringMap": map(r, ("value", p), 3, |r| mapper(r, g, d), KEYS)}) }
        8 => json!({"IgnoreError": mapper(r, g, d)}), 9 | 10 => json!({"RevertOnError": mapper(r, g, d)}), 11 => json!({"TryElse": {"try": mapper(r, g, d), "else": mapper(r, g, d)}}), 12 => json!({"FirstNotError": many(r, 3, |r| mapper(r, g, d))}),
        13 => json!({"Rule": rule(r, g, d)}), 14 => json!({"Rules": many(r, 3, |r| rule(r, g, d))}), 15 => json!({"Retry": {"mapper": mapper(r, g, d), "delay": 0.0, "limit": r.below(4)}}), _ => json!({"Common": ccall(r, g, d)}),
    }
}
pub fn rule(r: &mut Rng, g: G, d: usize) -> V {
    let d = d.saturating_sub(1);
    match r.below(16) {
        0 => { let p = opart(r); json!({"PartMap": map(r, ("part", p), 3, |r| mapper(r, g, d), KEYS)}) } 1 => { let p = opart(r); json!({"PartRuleMap": map(r, ("part", p), 3, |r| rule_leaf(r, g, d), KEYS)}) } 2 => { let p = opart(r); json!({"PartRulesMap": map(r, ("part", p), 3, |r| many(r, 2, |r| rule_leaf(r, g, d)), KEYS)}) }
        3 => { let p = ss(r, g, d); json!({"StringMap": map(r, ("value", p), 3, |r| mapper(r, g, d), KEYS)}) } 4 => { let p = ss(r, g, d); json!({"StringRuleMap": map(r, ("value", p), 3, |r| rule_leaf(r, g, d), KEYS)}) } 5 => { let p = ss(r, g, d); json!({"StringRulesMap": map(r, ("value", p), 3, |r| many(r, 2, |r| rule_leaf(r, g, d)), KEYS)}) }
        6 | 7 => json!({"Repeat": {"rules": many(r, 3, |r| rule_leaf(r, g, d)), "limit": r.below(6)}}), 8 => json!({"SharedCondition": {"condition": cond(r, g, d), "rules": many(r, 3, |r| rule_leaf(r, g, d))}}), 9 => json!({"Rules": many(r, 3, |r| rule_leaf(r, g, d))}), 10 => json!({"Common": ccall(r, g, d)}),
        _ => rule_leaf(r, g, d),
    }
}
pub fn rule_leaf(r: &mut Rng, g: G, d: usize) -> V { if d > 0 && r.chance(1, 3) { return rule(r, g, d) } if r.chance(1, 2) { json!({"Mapper": mapper(r, g, d)}) } else { let mut o = json!({"condition": cond(r, g, d), "mapper": mapper(r, g, d)}); if r.chance(1, 2) { o["else_mapper"] = mapper(r, g, d) } o } }

/// A world as config JSON, for the reference, and the same world for the crate.
pub struct W { pub env: Env, pub args: Args, pub st: St, pub real: World }
pub fn vars(r: &mut Rng) -> BTreeMap<String, String> { (0..r.below(4)).map(|_| (name(r, "v"), s(r))).collect() }
pub fn flags(r: &mut Rng) -> BTreeSet<String> { (0..r.below(3)).map(|_| name(r, "f")).collect() }
pub fn params(r: &mut Rng) -> V {
    let mut sets = Map::new(); for i in 0..2 { sets.insert(format!("s{i}"), strs(r, 5)); }
    let mut lists = Map::new(); for i in 0..2 { lists.insert(format!("l{i}"), many(r, 4, |r| json!(sm_(r)))); }
    let mut maps = Map::new(); for i in 0..2 { let mut m = Map::new(); for _ in 0..r.below(5) { m.insert(r.pick(KEYS).to_string(), json!(s(r))); } let mut o = json!({"map": m}); if r.chance(1, 3) { o["if_null"] = json!(s(r)) } if r.chance(1, 3) { o["else"] = json!(s(r)) } maps.insert(format!("m{i}"), o); }
    let mut np = Map::new(); for i in 0..2 { let mut m = Map::new(); for (k, key) in KEYS.iter().enumerate() { let w = r.below(4); if w < 3 { let n = format!("part{w}"); m.entry(n).or_insert(json!([])).as_array_mut().unwrap().push(json!(key)); } let _ = k; } np.insert(format!("p{i}"), V::Object(m)); }
    json!({"flags": flags(r), "vars": vars(r), "sets": sets, "lists": lists, "maps": maps, "named_partitionings": np})
}
pub fn commons(r: &mut Rng, d: usize) -> V {
    let mut o: BTreeMap<&str, Map<String, V>> = Default::default();
    for l in 0..3 { let g = G { lvl: l }; let k = format!("c{l}");
        let x = rule_leaf(r, g, d); o.entry("rules").or_default().insert(k.clone(), x); let x = cond(r, g, d); o.entry("conditions").or_default().insert(k.clone(), x); let x = mapper(r, g, d); o.entry("mappers").or_default().insert(k.clone(), x);
        let x = ss(r, g, d); o.entry("string_sources").or_default().insert(k.clone(), x); let x = sm(r, g, d); o.entry("string_modifications").or_default().insert(k.clone(), x); let x = mat(r, g, d); o.entry("string_matchers").or_default().insert(k, x); }
    json!(o)
}
pub fn world(r: &mut Rng, url: url::Url, calls: usize) -> W {
    let params = params(r); let commons = commons(r, calls); let (job, ctx) = (json!(vars(r)), json!(vars(r)));
    let args: Args = if r.chance(1, 2) { Some((flags(r), vars(r))) } else { None };
    let st = St { url, flags: flags(r), vars: vars(r) };
    let real = World { params: de(&params), commons: de(&commons), scratch: scratch(&st), ctx: TaskContext { vars: de(&ctx) }, job: JobContext { vars: de(&job) }, args: args.clone().map(|(f, v)| (f.into_iter().collect(), v.into_iter().collect())) };
    W { env: Env { params, commons, job, ctx }, args, st, real }
}
pub fn scratch(s: &St) -> JobScratchpad { JobScratchpad { flags: s.flags.iter().cloned().collect(), vars: s.vars.clone().into_iter().collect() } }
pub fn show(w: &W) -> String { format!("url={} scratch={:?}/{:?} args={:?} params={} job={} ctx={} commons={}", w.st.url, w.st.flags, w.st.vars, w.args, w.env.params, w.env.job, w.env.ctx, if w.env.commons.to_string().len() < 3000 { w.env.commons.to_string() } else { "(large)".into() }) }
pub type Obs = (bool, String, BTreeSet<String>, BTreeMap<String, String>);
fn obs(ok: bool, u: &str, s: &JobScratchpad) -> Obs { (ok, u.to_string(), s.flags.iter().cloned().collect(), s.vars.clone().into_iter().collect()) }
fn robs(ok: bool, s: &St) -> Obs { (ok, s.url.to_string(), s.flags.clone(), s.vars.clone()) }
/// the program text only mentions commons when it calls one
fn label(p: &V, w: &W) -> String { format!("{p} @ {}", show(w)) }
pub fn run_mapper(cx: &mut Cx, key: &str, p: &V, w: &W) { let mut s = w.st.clone(); let ok = Run { env: &w.env, args: &w.args }.mapper(p, &mut s).is_ok(); let m: Mapper = de(p);
    cx.case(key, label(p, w), || { let mut b: BetterUrl = w.st.url.clone().into(); let mut rw = w.real.clone(); let k = rw.state(&mut b, |t| m.apply(t).is_ok()); same(robs(ok, &s), obs(k, b.as_str(), &rw.scratch))?; same(format!("{:?}", BetterUrl::from(s.url.clone()).host_details()), format!("{:?}", b.host_details())) }) }
pub fn run_rule(cx: &mut Cx, key: &str, p: &V, w: &W) { let mut s = w.st.clone(); let ok = Run { env: &w.env, args: &w.args }.rule(p, &mut s).is_ok(); let m: Rule = de(p);
    cx.case(key, label(p, w), || { let mut b: BetterUrl = w.st.url.clone().into(); let mut rw = w.real.clone(); let k = rw.state(&mut b, |t| m.apply(t).is_ok()); same(robs(ok, &s), obs(k, b.as_str(), &rw.scratch)) }) }
pub fn run_rules(cx: &mut Cx, key: &str, p: &V, w: &W) { let mut s = w.st.clone(); let ok = Run { env: &w.env, args: &w.args }.rules(p, &mut s).is_ok(); let m: Rules = de(p);
    cx.case(key, label(p, w), || { let mut b: BetterUrl = w.st.url.clone().into(); let mut rw = w.real.clone(); let k = rw.state(&mut b, |t| m.apply(t).is_ok()); same(robs(ok, &s), obs(k, b.as_str(), &rw.scratch)) }) }
pub fn view(w: &W) -> Cxt<'_> { Cxt { env: &w.env, s: &w.st, args: &w.args } }
pub fn run_ss(cx: &mut Cx, key: &str, p: &V, w: &W) { let e = view(w).ss(p).map_err(|_| ()); let m: StringSource = de(p); cx.case(key, label(p, w), || { let b: BetterUrl = w.st.url.clone().into(); w.real.view(&b, |t| { same(&e, &m.get(t).map(|x| x.map(|x| x.into_owned())).map_err(|_| ()))?; same(&e, &m.get(t).map(|x| x.map(|x| x.into_owned())).map_err(|_| ())) }) }) }
pub fn run_sm(cx: &mut Cx, key: &str, p: &V, on: &str, w: &W) { let mut t = on.to_string(); let ok = view(w).sm(p, &mut t).is_ok(); let m: StringModification = de(p); cx.case(key, format!("on {on:?}: {}", label(p, w)), || { let b: BetterUrl = w.st.url.clone().into(); w.real.view(&b, |v| { let mut x = on.to_string(); let k = m.apply(&mut x, v).is_ok(); same((&t, ok), (&x, k)) }) }) }
pub fn run_mat(cx: &mut Cx, key: &str, p: &V, on: &str, w: &W) { let e = view(w).mat(p, on).map_err(|_| ()); let m: StringMatcher = de(p); cx.case(key, format!("on {on:?}: {}", label(p, w)), || { let b: BetterUrl = w.st.url.clone().into(); w.real.view(&b, |v| same(e, m.satisfied_by(on, v).map_err(|_| ()))) }) }
pub fn run_cond(cx: &mut Cx, key: &str, p: &V, w: &W) { let e = view(w).cond(p).map_err(|e| e.to_string()); let m: Condition = de(p);
    cx.case(key, label(p, w), || { let b: BetterUrl = w.st.url.clone().into(); w.real.view(&b, |v| same(e, m.satisfied_by(v).map_err(|e| { let d = format!("{e:?}"); d[..d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len())].to_string() }))) }) }
pub fn run_loc(cx: &mut Cx, key: &str, p: &V, h: &str, n: &str) { let e = crate::sem::loc(p, h, n).map_err(|_| ()); let m: StringLocation = de(p); cx.case(key, format!("{p} in {h:?} for {n:?}"), || same(e, m.satisfied_by(h, n).map_err(|_| ()))) }
pub fn run_chr(cx: &mut Cx, key: &str, p: &V, c: char) { let e = crate::sem::chr(p, c).map_err(|_| ()); let m: CharMatcher = de(p); cx.case(key, format!("{p} for {c:?}"), || same(e, m.satisfied_by(c).map_err(|_| ()))) }
pub fn any_url(r: &mut Rng) -> url::Url { if r.chance(1, 3) { parts::query_url(r) } else { url(r) } }
/// the outermost tag, used in violation keys
pub fn tag(p: &V) -> String { match p { V::String(s) => s.clone(), V::Object(o) => o.keys().next().cloned().unwrap_or_default(), _ => "null".into() } }
