//! P07-P16: drivers over the reference interpreter.
use crate::{gen_::*, parts, progs::*, real::*, refi, sem::{Env, Run, St}, *};
use serde_json::{json, Value};
use url::Url;
use url_cleaner::types::*;
fn u(s: &str) -> Url { Url::parse(s).unwrap() }
fn scalars(x: &str) -> Value { if x == "T" { json!("Always") } else if x == "F" { json!("Never") } else { json!({"Error": "e"}) } }

pub fn p07(cx: &mut Cx) {
    cx.rule = "query filters (remove/allow one, several, matching; text filters; take URL from parameter; drop query) x queries with repeated, empty, encoded and valueless parameters; compared with a filter over the decoded pair list (text filters: over the raw '&' pieces)".into();
    let g = G { lvl: 0 };
    for q in ["a=1&b=2&a=3", "a", "", "&&a=1&&", "a=b=c", "utm_source=x&a=1", "%61=1&a=2", "A=1", "=x&a", "+=1", "a=%26&b", "é=1"] { for ns in [json!([]), json!(["a"]), json!(["a", "b"]), json!(["utm_source", ""]), json!(["é"])] {
        let w = world(&mut cx.rng, u(&format!("https://e.com/p?{q}#f")), 0);
        for p in [json!({"RemoveQueryParams": ns}), json!({"AllowQueryParams": ns})] { run_mapper(cx, "query-set", &p, &w) }
        let m = json!({"IsOneOf": ns}); for p in [json!({"RemoveQueryParamsMatching": m}), json!({"AllowQueryParamsMatching": m})] { run_mapper(cx, "query-match", &p, &w); run_sm(cx, "text-filter", &p, q, &w); }
    } }
    for _ in 0..9000 * cx.scale {
        let r = &mut cx.rng; let url = parts::query_url(r); let w = world(r, url, 0);
        let p = match r.below(9) { 0 => json!({"RemoveQueryParam": if r.chance(1, 5) { ss(r, g, 1) } else { json!(*r.pick(parts::NAMES)) }}), 1 => json!({"RemoveQueryParams": qnames(r)}), 2 => json!({"AllowQueryParams": qnames(r)}), 3 | 4 => json!({"RemoveQueryParamsMatching": mat(r, g, 1)}), 5 | 6 => json!({"AllowQueryParamsMatching": mat(r, g, 1)}), 7 => json!({"GetUrlFromQueryParam": if r.chance(1, 6) { ss(r, g, 1) } else { json!(*r.pick(parts::NAMES)) }}), _ => json!("RemoveQuery") };
        run_mapper(cx, &format!("query/{}", tag(&p)), &p, &w);
        let r = &mut cx.rng; let p = if r.chance(1, 2) { json!({"RemoveQueryParamsMatching": mat(r, g, 1)}) } else { json!({"AllowQueryParamsMatching": mat(r, g, 1)}) };
        let q = w.st.url.query().unwrap_or("").to_string(); run_sm(cx, "text-filter", &p, &q, &w);
    }
    for t in ["https://x.example/a?b=1", "not a url", "", "foo:bar", "//x"] { let mut v = u("https://e.com/?a=1"); refi::put_pairs(&mut v, &[("z".into(), "1".into()), ("url".into(), t.into()), ("url".into(), "https://second.example/".into())]); let w = world(&mut cx.rng, v, 0); run_mapper(cx, "query/url", &json!({"GetUrlFromQueryParam": "url"}), &w) }
}
pub fn p08(cx: &mut Cx) {
    cx.rule = "random rule/mapper trees of every control form (depth up to 4, shared calls up to 3 levels) over random URLs, scratch states and parameters; final result, URL, flags and variables compared with an independent interpreter of the config JSON".into();
    let g = G { lvl: 3 };
    for _ in 0..2500 * cx.scale { let r = &mut cx.rng; let url = any_url(r); let w = world(r, url, 1);
        for _ in 0..3 { let r = &mut cx.rng; let d = 1 + r.below(3); let p = rule(r, g, d); run_rule(cx, &format!("rule/{}", tag(&p)), &p, &w);
            let r = &mut cx.rng; let p = mapper(r, g, d); run_mapper(cx, &format!("mapper/{}", tag(&p)), &p, &w);
            let r = &mut cx.rng; let p = Value::Array((0..r.below(5)).map(|_| rule(r, g, 1)).collect()); run_rules(cx, "rules", &p, &w); } }
}
pub fn p09(cx: &mut Cx) {
    cx.rule = "recovery wrappers around sequences that write the URL and the scratch state and fail at every position; part writes, moves and copies between every pair of parts; text edits under the same wrappers; compared with an independent interpreter".into();
    let g = G { lvl: 2 };
    for p in parts::PLAIN { for q in parts::PLAIN { for s in ["https://user:pw@www.example.co.uk:81/a/b?x=1#f", "foo:opaque", "http://127.0.0.1/"] { let w = world(&mut cx.rng, u(s), 0); run_mapper(cx, "move", &json!({"MovePart": {"from": p, "to": q}}), &w); run_mapper(cx, "copy", &json!({"CopyPart": {"from": p, "to": q}}), &w); } } }
    for _ in 0..3500 * cx.scale {
        let r = &mut cx.rng; let url = any_url(r); let w = world(r, url, 1);
        let n = 1 + r.below(4); let mut steps: Vec<Value> = (0..n).map(|_| mapper_leaf(r, g, 1)).collect(); let at = r.below(n + 1); steps.insert(at, json!({"Error": "stop"}));
        let seq = json!({"All": steps});
        let p = match r.below(8) { 0 => json!({"RevertOnError": seq}), 1 => json!({"IgnoreError": seq}), 2 => json!({"TryElse": {"try": seq, "else": mapper_leaf(r, g, 1)}}), 3 => json!({"FirstNotError": [seq, mapper_leaf(r, g, 1), mapper_leaf(r, g, 1)]}), 4 => json!({"FirstNotError": [mapper_leaf(r, g, 1), seq]}), 5 => json!({"IgnoreError": {"RevertOnError": seq}}), 6 => json!({"TryElse": {"try": {"RevertOnError": seq}, "else": {"All": [mapper_leaf(r, g, 1), {"Error": "x"}]}}}), _ => json!({"All": [mapper_leaf(r, g, 1), {"RevertOnError": {"Common": ccall(r, g, 1)}}]}) };
        run_mapper(cx, &format!("recover/{}", tag(&p)), &p, &w);
        let r = &mut cx.rng; let p = mapper_leaf(r, g, 1); run_mapper(cx, &format!("atomic/{}", tag(&p)), &p, &w);
        let r = &mut cx.rng; let n = 1 + r.below(3); let mut steps: Vec<Value> = (0..n).map(|_| sm(r, g, 1)).collect(); let at = r.below(n + 1); steps.insert(at, json!({"Error": "stop"})); let seq = json!({"All": steps});
        let p = match r.below(5) { 0 => json!({"RevertOnError": seq}), 1 => json!({"IgnoreError": seq}), 2 => json!({"TryElse": {"try": seq, "else": sm(r, g, 1)}}), 3 => json!({"FirstNotError": [seq, sm(r, g, 1), sm(r, g, 1)]}), _ => json!({"IgnoreError": {"RevertOnError": seq}}) };
        let on = crate::progs::s(r); run_sm(cx, &format!("text-recover/{}", tag(&p)), &p, &on, &w);
    }
}
pub fn p10(cx: &mut Cx) {
    cx.rule = "repeat bodies that converge slowly, cycle, change only flags or only variables, or fail in a chosen round, with limits 0..7 and 300, plus random bodies; retries with a counter that lets the n-th attempt succeed; compared with explicit iteration".into();
    let add = |part: &str| json!({"Mapper": {"ModifyPart": {"part": part, "modification": {"Append": "x"}}}});
    let count = json!({"Mapper": {"SetScratchpadVar": {"name": "n", "value": {"Join": {"sources": [{"NoneToEmptyString": {"Var": {"type": "Scratchpad", "name": "n"}}}, "i"], "join": ""}}}}});
    let until = |n: usize| json!({"condition": {"VarIs": {"type": "Scratchpad", "name": "n", "value": "i".repeat(n)}}, "mapper": "None", "else_mapper": {"Rule": count}});
    let fail_at = |n: usize| json!({"condition": {"VarIs": {"type": "Scratchpad", "name": "n", "value": "i".repeat(n)}}, "mapper": {"Error": "stop"}});
    let toggle = json!({"condition": {"FlagIsSet": {"type": "Scratchpad", "name": "t"}}, "mapper": {"SetScratchpadFlag": {"name": "t", "value": false}}, "else_mapper": {"SetScratchpadFlag": {"name": "t", "value": true}}});
    let cyc = json!({"condition": {"PathIs": "/a"}, "mapper": {"SetPart": {"part": "Path", "value": "/b"}}, "else_mapper": {"SetPart": {"part": "Path", "value": "/a"}}});
    let strip = json!({"Mapper": {"ModifyPart": {"part": "Path", "modification": {"StripMaybeSuffix": "a"}}}});
    let settle = json!({"condition": {"FlagIsSet": {"type": "Scratchpad", "name": "t"}}, "mapper": {"SetPart": {"part": "Fragment", "value": "done"}}, "else_mapper": {"SetScratchpadFlag": {"name": "t", "value": true}}});
    let mut bodies = vec![json!([]), json!([add("Path")]), json!([add("Fragment")]), json!([count]), json!([toggle]), json!([cyc]), json!([strip]), json!([settle]), json!([toggle, cyc]), json!([{"Mapper": {"Error": "e"}}])];
    for n in 0..5 { bodies.push(json!([until(n)])); bodies.push(json!([until(n), add("Query")])); bodies.push(json!([count, fail_at(n)])); bodies.push(json!([count, fail_at(n), add("Path")])); }
    for s in ["https://e.com/aaaa?q#f", "https://e.com/a", "https://e.com/"] { let w0 = { let mut w = world(&mut cx.rng, u(s), 0); w.st.flags.clear(); w.st.vars.clear(); w.real.scratch = scratch(&w.st); w };
        for b in &bodies { for l in [0u64, 1, 2, 3, 4, 5, 6, 7, 300] { run_rule(cx, "repeat", &json!({"Repeat": {"rules": b, "limit": l}}), &w0) } run_rule(cx, "repeat-default", &json!({"Repeat": {"rules": b}}), &w0) ;
            run_rule(cx, "repeat-nested", &json!({"Repeat": {"rules": [{"Repeat": {"rules": b, "limit": 2}}], "limit": 3}}), &w0) }
        for n in 1..6 { for l in 0..7 { let att = json!({"All": [{"Rule": count}, {"If": {"condition": {"VarIs": {"type": "Scratchpad", "name": "n", "value": "i".repeat(n)}}, "mapper": "None", "else_mapper": {"Error": "again"}}}]}); run_mapper(cx, "retry", &json!({"Retry": {"mapper": att, "delay": 0.0, "limit": l}}), &w0) } } }
    let g = G { lvl: 2 };
    for _ in 0..4000 * cx.scale { let r = &mut cx.rng; let url = any_url(r); let w = world(r, url, 1); let d = 1 + r.below(2); let b: Vec<Value> = (0..1 + r.below(3)).map(|_| rule_leaf(r, g, d)).collect(); let p = json!({"Repeat": {"rules": b, "limit": r.below(7)}}); run_rule(cx, "repeat-random", &p, &w) }
}
pub fn p11(cx: &mut Cx) {
    cx.rule = "every connective over every list of up to 4 operands from {true, false, error}, then random nestings to depth 4, in conditions (with error filters), text matchers, locators and character matchers; compared with one shared definition of the connectives; state compared before and after".into();
    let b = ["T", "F", "E"]; let mut lists: Vec<Vec<&str>> = vec![vec![]]; let mut last = lists.clone(); for _ in 0..4 { last = last.iter().flat_map(|l| b.iter().map(move |x| { let mut l = l.clone(); l.push(x); l })).collect(); lists.extend(last.clone()); }
    let w = world(&mut cx.rng, u("https://www.example.com/a?a=1"), 0);
    for k in 0..4 { let e = |x: &&str| if k == 3 && **x == *"E" { json!("Error") } else { scalars(x) };
        let mut ps = vec![];
        for l in &lists { let v: Vec<Value> = l.iter().map(e).collect(); for t in ["All", "Any", "FirstNotError"] { if !(k == 0 && t == "FirstNotError") { ps.push(json!({t: v})) } } }
        for x in &b { ps.push(json!({"Not": e(x)})); ps.push(json!({"Debug": e(x)})); for t in ["TreatErrorAsPass", "TreatErrorAsFail"] { if k == 0 { for f in [Value::Null, json!(["ExplicitError"]), json!([]), json!(["PartIsNone"])] { ps.push(with_filter(t, e(x), f)) } } else { ps.push(json!({t: e(x)})) } }
            for y in &b { if k == 0 { for f in [Value::Null, json!(["ExplicitError"]), json!([]), json!(["PartIsNone"])] { ps.push(json!({"TryElse": {"try": e(x), "else": e(y), "filter": f}})) } } else { ps.push(json!({"TryElse": {"try": e(x), "else": e(y)}})) } for z in &b { ps.push(json!({"If": {"if": e(x), "then": e(y), "else": e(z)}})) } } }
        for p in ps { match k { 0 => run_cond(cx, &format!("condition/{}", tag(&p)), &p, &w), 1 => run_mat(cx, &format!("matcher/{}", tag(&p)), &p, "ab", &w), 2 => run_loc(cx, &format!("location/{}", tag(&p)), &p, "ab", "a"), _ => run_chr(cx, &format!("char/{}", tag(&p)), &p, 'a') } }
    }
    let g = G { lvl: 2 };
    fn nest(r: &mut Rng, k: usize, d: usize, g: G) -> Value { if d == 0 || r.chance(1, 4) { return match k { 0 => if r.chance(1, 3) { econd(r, g) } else { leaf3(r, json!({"Error": "e"})) }, 3 => leaf3(r, json!("Error")), _ => leaf3(r, json!({"Error": "e"})) } } if k == 0 { cond_conn(r, g, |r| nest(r, k, d - 1, g)) } else { conn(r, |r| nest(r, k, d - 1, g)) } }
    for _ in 0..6000 * cx.scale { for k in 0..4 { let r = &mut cx.rng; let p = nest(r, k, 4, g); match k { 0 => { let w = world(&mut cx.rng, u("https://www.example.com/a?a=1"), 0); run_cond(cx, &format!("condition/{}", tag(&p)), &p, &w) } 1 => run_mat(cx, &format!("matcher/{}", tag(&p)), &p, "ab", &w), 2 => run_loc(cx, &format!("location/{}", tag(&p)), &p, "ab", "a"), _ => run_chr(cx, &format!("char/{}", tag(&p)), &p, 'a') } } }
    for _ in 0..1500 * cx.scale { let r = &mut cx.rng; let url = any_url(r); let w = world(r, url, 1); let p = cond(r, g, 3); run_cond(cx, &format!("condition/{}", tag(&p)), &p, &w); let r = &mut cx.rng; let p = mat(r, g, 3); let on = crate::progs::s(r); run_mat(cx, &format!("matcher/{}", tag(&p)), &p, &on, &w) }
}
pub fn p12(cx: &mut Cx) {
    cx.rule = "every condition atom with matching, near-miss and absent values on URLs of all host kinds, over random states; compared with the named component computed independently".into();
    let g = G { lvl: 0 };
    for h in HOSTS { for s in ["https", "foo"] { if let Ok(x) = Url::parse(&format!("{s}://{h}/a?a=1")) { let w = world(&mut cx.rng, x.clone(), 0);
        for a in ["UrlHasHost", "HostIsFqdn", "HostIsDomain", "HostIsIp", "HostIsIpv4", "HostIsIpv6"] { run_cond(cx, a, &json!(a), &w) }
        for (c, p) in [("HostIs", "Host"), ("SubdomainIs", "Subdomain"), ("RegDomainIs", "RegDomain"), ("DomainIs", "Domain"), ("DomainMiddleIs", "DomainMiddle"), ("NotDomainSuffixIs", "NotDomainSuffix"), ("DomainSuffixIs", "DomainSuffix")] {
            let v = refi::part_get(&json!(p), &x); let mut vs = vec![None, v.clone(), Some(String::new())]; if let Some(v) = &v { vs.extend([Some(format!("{v}.")), Some(format!("x{v}")), Some(format!("www.{v}")), Some(v.to_uppercase())]); if v.len() > 1 && v.is_char_boundary(1) { vs.push(Some(v[1..].into())) } }
            for t in vs { run_cond(cx, c, &json!({c: t}), &w); run_cond(cx, "PartIs", &json!({"PartIs": {"part": p, "value": t}}), &w) } }
        run_cond(cx, "HostIsOneOf", &json!({"HostIsOneOf": [h, ""]}), &w); run_cond(cx, "HostIsOneOf", &json!({"HostIsOneOf": ["x", "www.example.com"]}), &w);
    } } }
    for _ in 0..9000 * cx.scale { let r = &mut cx.rng; let url = any_url(r); let w = world(r, url, 0); for _ in 0..2 { let r = &mut cx.rng; let p = cond_atom(r, g, 1); run_cond(cx, &tag(&p), &p, &w) } }
}
pub fn p13(cx: &mut Cx) {
    cx.rule = "every locator and matcher atom on ASCII and multi-byte haystacks with present, absent and empty needles and signed byte positions on and off character boundaries; every character class on all characters below U+0600, class borders and random characters; compared with byte-level definitions".into();
    for c in (0u32..0x600).chain([0x1680, 0x2000, 0x2028, 0x3000, 0xFF10, 0xFF21, 0x1F600, 0x10FFFF, 0x2160, 0xD7FF, 0xE000]).filter_map(char::from_u32) { for k in CLASSES { run_chr(cx, k, &json!(k), c) } for rdx in [0, 1, 2, 10, 11, 16, 35, 36, 37, 4000000000u32] { run_chr(cx, "IsDigitRadix", &json!({"IsDigitRadix": rdx}), c) } }
    let hs = ["", "a", "ab", "aba", "éa", "aé", "日b日", "a.b.c", "..", "🙂"]; let ns = ["", "a", "b", "ab", "é", "日", "."];
    for h in hs { for n in ns { for l in ["Anywhere", "Start", "End", "Equals"] { run_loc(cx, l, &json!(l), h, n) } for i in -8..9 { for l in ["StartsAt", "EndsAt", "After", "Before"] { run_loc(cx, l, &json!({l: i}), h, n) } run_loc(cx, "NthSegment", &json!({"NthSegment": {"split": ".", "n": i, "location": "Equals"}}), h, n); for e in [Value::Null, json!(-1), json!(0), json!(2), json!(3), json!(5)] { run_loc(cx, "Range", &json!({"Range": {"start": i, "end": e, "location": "Anywhere"}}), h, n) } }
        for sp in ["", ".", "a", "é"] { let w = world(&mut cx.rng, u("https://e.com"), 0); for t in ["SegmentsStartWith", "SegmentsEndWith"] { run_mat(cx, t, &json!({t: {"split": sp, "value": n}}), h, &w) } run_loc(cx, "AnySegment", &json!({"AnySegment": {"split": sp, "location": "Equals"}}), h, n) } } }
    let g = G { lvl: 0 };
    for _ in 0..6000 * cx.scale { let r = &mut cx.rng; let w = world(r, u("https://www.example.com/a?a=1"), 0); for _ in 0..3 { let r = &mut cx.rng; let p = mat(r, g, 1); let on = crate::progs::s(r); run_mat(cx, &tag(&p), &p, &on, &w); let r = &mut cx.rng; let p = loc(r, 1); let (h, n) = (crate::progs::s(r), text(r, 2)); run_loc(cx, &format!("loc/{}", tag(&p)), &p, &h, &n); let r = &mut cx.rng; let p = chr(r, 1); let c = char::from_u32(r.below(0x3000) as u32).unwrap(); run_chr(cx, &format!("char/{}", tag(&p)), &p, c) } }
}
pub fn p14(cx: &mut Cx) {
    cx.rule = "every text edit (all index/range signs and extremes, empty and multi-byte operands, absent operands) on short ASCII and multi-byte texts, and left-to-right compositions; compared with independent definitions; on error the text must be unchanged for single edits".into();
    let w = world(&mut cx.rng, u("https://www.example.com/a?a=1"), 0);
    for t in ["", "a", "abc", "éa", "aéb", "日本語", "a.b.c", "🙂"] { for i in (-10..11).chain([i64::MIN, i64::MAX]) {
        for p in [json!({"RemoveChar": i}), json!({"Insert": {"index": i, "value": "X"}}), json!({"Insert": {"index": i, "value": ""}}), json!({"KeepRange": {"start": i, "end": null}}), json!({"KeepNthSegment": {"split": ".", "index": i}})] { run_sm(cx, &tag(&p), &p, t, &w) }
        for e in -7..8 { run_sm(cx, "KeepRange", &json!({"KeepRange": {"start": i, "end": e}}), t, &w); run_sm(cx, "ReplaceRange", &json!({"ReplaceRange": {"start": i, "end": e, "replace": "é"}}), t, &w); run_sm(cx, "KeepSegmentRange", &json!({"KeepSegmentRange": {"split": ".", "start": i, "end": e}}), t, &w) } }
        for x in ["", "a", "é", "abc", ".", "abcd"] { for k in ["StripPrefix", "StripSuffix", "StripMaybePrefix", "StripMaybeSuffix", "Append", "Prepend", "Set"] { run_sm(cx, k, &json!({k: x}), t, &w) } for n in 0..4 { run_sm(cx, "Replacen", &json!({"Replacen": {"find": x, "replace": "-", "count": n}}), t, &w) } run_sm(cx, "Replace", &json!({"Replace": {"find": x, "replace": "-"}}), t, &w) } }
    for b in 0..256u32 { let c = char::from_u32(b).unwrap().to_string(); for a in ["JsEncodeUriComponent", "JsEncodeUri", "NonAlphanumeric"] { run_sm(cx, "UrlEncode", &json!({"UrlEncode": a}), &c, &w) } run_sm(cx, "UrlDecode", &json!("UrlDecode"), &format!("x%{b:02x}%{b:02X}y%"), &w) }
    let g = G { lvl: 0 };
    for _ in 0..14000 * cx.scale { let r = &mut cx.rng; let t = if r.chance(1, 2) { text(r, 9) } else { crate::progs::s(r) }; let p = sm(r, g, 0); run_sm(cx, &tag(&p), &p, &t, &w); let r = &mut cx.rng; let p = sm(r, g, 2); run_sm(cx, &tag(&p), &p, &t, &w) }
}
pub fn p15(cx: &mut Cx) {
    cx.rule = "random source trees to depth 4 (absent, error and empty leaves; shared sources up to 3 levels) on random URLs, states and parameters; each evaluated twice and compared with an independent evaluator".into();
    let g = G { lvl: 3 };
    let leaves = [Value::Null, json!(""), json!("a"), json!({"Error": "e"})];
    let w = world(&mut cx.rng, u("https://www.example.com/a?a=1"), 0);
    for a in &leaves { for b in &leaves { for p in [json!({"ErrorToNone": a}), json!({"ErrorToEmptyString": a}), json!({"NoneToEmptyString": a}), json!({"NoneTo": {"value": a, "if_none": b}}), json!({"TryElse": {"try": a, "else": b}}), json!({"Join": {"sources": [a, b], "join": "-"}}), json!({"Join": {"sources": [a], "join": "-"}}), json!({"Join": {"sources": []}}), json!({"Modified": {"value": a, "modification": {"Append": b}}}), json!({"Map": {"value": a, "map": {"a": b}, "if_null": "N", "else": "E"}}), json!({"Map": {"value": a, "map": {"": b}, "else": "E"}}), json!({"Map": {"value": a, "map": {"": b}}}), json!({"ParamsMap": {"name": "m0", "key": a}}), json!({"ExtractPart": {"value": a, "part": "Host"}}), json!({"ExtractBetween": {"value": "a-b-c", "start": a, "end": b}}), json!({"RegexFind": {"value": a, "regex": "a*"}})] { run_ss(cx, &tag(&p), &p, &w) }
        for c in &leaves { for p in [json!({"IfStringIsNone": {"value": a, "then": b, "else": c}}), json!({"IfStringMatches": {"value": a, "matcher": {"Is": "a"}, "then": b, "else": c}}), json!({"Join": {"sources": [a, b, c], "join": "é"}})] { run_ss(cx, &tag(&p), &p, &w) } } } }
    // texts cut between markers that occur several times, overlap or are missing; from literal (borrowed) and computed (owned) texts
    for t in ["", "a", "aXbYc", "aXbXcYdYe", "XXYY", "YaX", "XaY", "aéb日c日éd", "ababab", "éé"] { for (a, b) in [("X", "Y"), ("a", "b"), ("X", "X"), ("", "Y"), ("X", ""), ("", ""), ("é", "日"), ("é", "é"), ("ab", "ab"), ("ab", "a"), ("zz", "Y"), ("X", "zz")] {
        for v in [json!(t), json!({"Join": {"sources": [t]}}), json!({"NoneTo": {"value": null, "if_none": t}}), json!({"Modified": {"value": t, "modification": {"Append": ""}}})] { let p = json!({"ExtractBetween": {"value": v, "start": a, "end": b}}); run_ss(cx, "ExtractBetween", &p, &w); let p = json!({"Modified": {"value": v, "modification": {"ExtractBetween": {"start": a, "end": b}}}}); run_ss(cx, "Modified", &p, &w) } } }
    for _ in 0..4000 * cx.scale { let r = &mut cx.rng; let url = any_url(r); let w = world(r, url, 1); for _ in 0..4 { let r = &mut cx.rng; let d = 1 + r.below(3); let p = ss(r, g, d); run_ss(cx, &tag(&p), &p, &w) } }
}
pub fn p16(cx: &mut Cx) {
    cx.rule = "flag and variable references of every scope with the same names set differently in every scope; shared calls nested to 4 levels with different arguments, read back before, inside and after the call; jobs of several tasks (some failing) whose rules write and read scratch state; compared with an independent interpreter".into();
    let g = G { lvl: 3 };
    for _ in 0..2500 * cx.scale {
        let r = &mut cx.rng; let url = any_url(r); let w = world(r, url, 1);
        for _ in 0..3 { let r = &mut cx.rng;
            let p = json!({"FlagIsSet": flag(r, g, 1)}); run_cond(cx, "flag", &p, &w); let r = &mut cx.rng; let p = json!({"Var": vref(r, g, 1)}); run_ss(cx, "var", &p, &w);
            let r = &mut cx.rng; let rd = |r: &mut Rng| json!({"SetScratchpadVar": {"name": *r.pick(&["v0", "v1", "v2"]), "value": {"ErrorToEmptyString": {"Join": {"sources": [{"NoneToEmptyString": {"Var": {"type": "Common", "name": "v0"}}}, {"NoneToEmptyString": {"Var": {"type": "Common", "name": "v1"}}}, {"NoneToEmptyString": {"Var": {"type": "Scratchpad", "name": "v2"}}}, {"IfFlag": {"type": "Common", "name": "f0", "then": "F", "else": "-"}}], "join": "|"}}}}});
            let p = json!({"All": [rd(r), {"IgnoreError": {"Common": ccall(r, g, 1)}}, rd(r), {"Rule": {"Common": ccall(r, g, 1)}}, rd(r)]}); run_mapper(cx, "shared-call", &p, &w);
            let r = &mut cx.rng; let p = json!({"Common": ccall(r, g, 1)}); run_cond(cx, "shared-condition", &p, &w); run_ss(cx, "shared-source", &p, &w); run_mat(cx, "shared-matcher", &p, "ab", &w); run_sm(cx, "shared-edit", &p, "ab", &w); run_rule(cx, "shared-rule", &p, &w); }
    }
    // nested calls that shadow arguments
    let echo = |n: &str, then: Value| json!({"All": [{"SetScratchpadVar": {"name": format!("{n}0"), "value": {"Join": {"sources": [{"NoneTo": {"value": {"Var": {"type": "Common", "name": "x"}}, "if_none": "none"}}, {"NoneTo": {"value": {"Var": {"type": "Common", "name": "y"}}, "if_none": "none"}}, {"IfFlag": {"type": "Common", "name": "f", "then": "F", "else": "-"}}], "join": ","}}}}, then, {"SetScratchpadVar": {"name": format!("{n}1"), "value": {"Join": {"sources": [{"NoneTo": {"value": {"Var": {"type": "Common", "name": "x"}}, "if_none": "none"}}, {"NoneTo": {"value": {"Var": {"type": "Common", "name": "y"}}, "if_none": "none"}}, {"IfFlag": {"type": "Common", "name": "f", "then": "F", "else": "-"}}], "join": ","}}}}]});
    for fx in 0..2 { for fy in 0..2 { for vx in 0..3 { for vy in 0..3 {
        let a = |f: i32, v: i32, t: &str| { let mut vars = serde_json::Map::new(); if v == 1 { vars.insert("x".into(), json!(t)); } if v == 2 { vars.insert("y".into(), json!({"Join": {"sources": [{"NoneTo": {"value": {"ErrorToNone": {"Var": {"type": "Common", "name": "x"}}}, "if_none": "?"}}, t], "join": "+"}})); } json!({"flags": if f == 1 { json!(["f"]) } else { json!([]) }, "vars": vars}) };
        let commons = json!({"mappers": {"a": echo("a", json!({"Common": {"name": "b", "args": a(fy, vy, "q")}})), "b": echo("b", json!({"Rule": {"Common": {"name": "r", "args": a(fx, vy, "z")}}}))}, "rules": {"r": {"Mapper": echo("r", json!("None"))}}});
        let mut w = world(&mut cx.rng, u("https://e.com/"), 0); w.real.commons = de(&commons); w.env.commons = commons;
        run_mapper(cx, "shadowing", &json!({"Common": {"name": "a", "args": a(fx, vx, "p")}}), &w);
    } } } }
    // tasks of a job
    for k in 0..400 * cx.scale {
        let r = &mut cx.rng; let w = world(r, u("https://e.com/"), 1); let n = 1 + r.below(4);
        let mut rules: Vec<Value> = (0..n).map(|_| rule_leaf(r, g, 1)).collect(); if k % 3 == 0 { rules.insert(0, json!({"Mapper": {"SetScratchpadFlag": {"name": "f0", "value": true}}})); rules.insert(0, json!({"condition": {"FlagIsSet": {"type": "Scratchpad", "name": "f0"}}, "mapper": {"SetPart": {"part": "Fragment", "value": "leaked"}}})) }
        let cfg: Config = de(&json!({"params": w.env.params, "commons": w.env.commons, "rules": rules}));
        let urls: Vec<Url> = (0..2 + r.below(3)).map(|_| any_url(r)).collect(); let ctxs: Vec<Value> = urls.iter().map(|_| json!(vars(r))).collect();
        let want: Vec<Option<String>> = urls.iter().zip(&ctxs).map(|(u, c)| { let env = Env { params: w.env.params.clone(), commons: w.env.commons.clone(), job: w.env.job.clone(), ctx: c.clone() }; let mut s = St { url: u.clone(), flags: Default::default(), vars: Default::default() }; Run { env: &env, args: &None }.rules(&json!(rules), &mut s).ok().map(|_| s.url.to_string()) }).collect();
        let job = w.real.job.clone(); let us = urls.clone();
        cx.case("job", format!("rules {} on {:?} ctx {:?} @ {}", json!(rules), urls.iter().map(|u| u.as_str()).collect::<Vec<_>>(), ctxs, show(&w)), move || {
            let tcs: Vec<Result<TaskConfig, MakeTaskConfigError>> = us.iter().zip(&ctxs).map(|(u, c)| Ok(TaskConfig { url: u.clone().into(), context: TaskContext { vars: de(c) } })).collect();
            let mut j = Job { config: JobConfig { config: std::borrow::Cow::Owned(cfg) }, context: std::borrow::Cow::Owned(job), task_configs_source: Box::new(tcs.into_iter()) };
            let got: Vec<Option<String>> = j.iter().map(|t| t.unwrap().r#do().ok().map(|u| u.as_str().to_string())).collect(); same(want, got) });
    }
}
/// development aid: every generated fragment must deserialise
pub fn selfcheck(cx: &mut Cx) {
    let g = G { lvl: 2 };
    fn t<T: serde::de::DeserializeOwned>(m: &mut std::collections::BTreeMap<String, (usize, String)>, k: &str, p: Value) { if let Err(e) = serde_json::from_value::<T>(p.clone()) { let x = m.entry(format!("{k} {} {e}", tag(&p))).or_insert((0, p.to_string())); x.0 += 1; if p.to_string().len() < x.1.len() { x.1 = p.to_string() } } }
    let mut m = Default::default();
    for _ in 0..20000 { let r = &mut cx.rng; t::<Condition>(&mut m, "cond", cond(r, g, 1)); t::<StringSource>(&mut m, "ss", ss(r, g, 1)); t::<StringModification>(&mut m, "sm", sm(r, g, 1)); t::<StringMatcher>(&mut m, "mat", mat(r, g, 1)); t::<Mapper>(&mut m, "mapper", mapper_leaf(r, g, 1)); t::<Params>(&mut m, "params", params(r)); }
    for (k, (n, p)) in m { println!("{n} {k}: {p}") }
}
