//! P23: regexes, globs, Base64 and URL-escapes are used with exactly the settings given.
use crate::{gen_, Cx, Rng};
use serde_json::{json, Map, Value};
use std::str::FromStr;
use url_cleaner::glue::*;
use url_cleaner::types::*;
const LETTERS: [(char, &str); 8] = [('i', "case_insensitive"), ('R', "crlf"), ('s', "dot_matches_new_line"), ('x', "ignore_whitespace"), ('m', "multi_line"), ('o', "octal"), ('U', "swap_greed"), ('u', "unicode")];
fn bits(c: &RegexConfig) -> [bool; 8] { [c.case_insensitive, c.crlf, c.dot_matches_new_line, c.ignore_whitespace, c.multi_line, c.octal, c.swap_greed, c.unicode] }
fn of_bits(b: [bool; 8], t: u8) -> RegexConfig { RegexConfig { case_insensitive: b[0], crlf: b[1], dot_matches_new_line: b[2], ignore_whitespace: b[3], line_terminator: t, multi_line: b[4], octal: b[5], swap_greed: b[6], unicode: b[7] } }
fn gen_bits(r: &mut Rng) -> [bool; 8] { match r.below(4) { 0 => { let mut b = [false, false, false, false, false, false, false, true]; let i = r.below(8); b[i] = !b[i]; b } _ => std::array::from_fn(|_| r.chance(1, 2)) } }
fn built(p: &str, b: [bool; 8], t: u8) -> Option<::regex::Regex> {
    let mut x = ::regex::RegexBuilder::new(p); x.unicode(b[7]).swap_greed(b[6]).octal(b[5]).multi_line(b[4]).line_terminator(t).ignore_whitespace(b[3]).dot_matches_new_line(b[2]).crlf(b[1]).case_insensitive(b[0]); x.build().ok()
}
const PATTERNS: &[&str] = &["a", "^b$", "a.b", "a+", "(?P<n>a+)(b*)", "A B", "a b # c", r"\141", r"\w+", "é", "^$", "a$", "(a", "[", "(?i)ab", "a|B", r"\bx", "[^a]+", ".", "a{2,3}?", "(?u:é)", "\n", r"(?-u)\xff", "x*", "(?x) a # b"];
const TEXTS: &[&str] = &["", "a", "A", "aaa", "ab", "AB", "a\nb", "b\n", "a\r\nb\r\nc", "b", "x\nb\ny", "A B", "a b # c", "\u{61}", "é", "É", "aé x", "AaBb", "\r\n", "a\u{0}b", "xx x", "abab"];
fn answers(x: &::regex::Regex) -> Vec<String> { TEXTS.iter().map(|t| format!("{:?}", x.captures_iter(t).map(|c| c.iter().map(|m| m.map(|m| m.range())).collect::<Vec<_>>()).collect::<Vec<_>>())).collect() }
fn show(x: Option<&::regex::Regex>) -> Option<Vec<String>> { x.map(answers) }
pub fn p23(cx: &mut Cx) {
    cx.rule = "all settings of a regex given as fields, letters and JSON x patterns x texts, each used several times, cloned, shared between threads and converted, against the regex crate set up directly; every Base64 alphabet and padding against an independent codec; every character under every URL-escape set; glob patterns x options against the glob crate; configurations with fields left out".into();
    letters(cx); regexes(cx); b64(cx); escapes(cx); globs(cx);
}
fn letters(cx: &mut Cx) {
    for n in 0..600 * cx.scale {
        let r = &mut cx.rng; let (b, c) = (gen_bits(r), gen_bits(r)); let t = *r.pick(&[10u8, 0, 13, 255]); let al: Vec<char> = "iRsxmoUurSXMOIé-u i".chars().collect(); let k = r.below(6); let f: String = if n < 8 { LETTERS[n].0.to_string() } else { (0..k).map(|_| *r.pick(&al)).collect() };
        cx.case("flags", format!("{f:?} on {b:?}, line terminator {t}"), || {
            let has = |i: usize| f.contains(LETTERS[i].0); let ex = |g: &dyn Fn(usize) -> bool| of_bits(std::array::from_fn(|i| g(i)), t);
            let run = |g: &dyn Fn(&mut RegexConfig)| { let mut x = of_bits(b, t); g(&mut x); x };
            crate::same((ex(&|i| has(i)), ex(&|i| b[i] || has(i)), ex(&|i| b[i] && !has(i))), (run(&|x| x.set_flags(&f)), run(&|x| x.add_flags(&f)), run(&|x| x.remove_flags(&f))))?;
            let mut got: Vec<char> = of_bits(b, t).get_flags().chars().collect(); got.sort(); let mut want: Vec<char> = (0..8).filter(|i| b[*i]).map(|i| LETTERS[i].0).collect(); want.sort(); crate::same(want, got)?;
            let mut x = of_bits(c, 7); x.set_flags(&of_bits(b, t).get_flags()); crate::same(of_bits(b, 7), x)
        });
    }
    cx.case("flags/default", "RegexConfig::default()", || crate::same(([false, false, false, false, false, false, false, true], 10), { let d = RegexConfig::default(); (bits(&d), d.line_terminator) }));
}
fn regexes(cx: &mut Cx) {
    let plain = [false, false, false, false, false, false, false, true];
    for k in 0..900 * cx.scale {
        let r = &mut cx.rng; let p = r.pick(PATTERNS).to_string(); let bare = k % 5 == 0; let b = if bare { plain } else { gen_bits(r) }; let t = if bare { 10u8 } else { *r.pick(&[10u8, 10, 0, 13, b'b', 200]) };
        // written as JSON with some of the settings left out
        let mut m = Map::new(); m.insert("pattern".into(), json!(p)); for i in 0..8 { if b[i] != plain[i] || r.chance(1, 3) { m.insert(LETTERS[i].1.into(), json!(b[i])); } } if t != 10 || r.chance(1, 3) { m.insert("line_terminator".into(), json!(t)); }
        let j = if bare && r.chance(1, 2) { json!(p) } else { Value::Object(m) };
        cx.case(if bare { "regex/bare" } else { "regex" }, j.to_string(), || {
            let want = show(built(&p, b, t).as_ref());
            let parts: RegexParts = crate::de1(&j); crate::same((p.clone(), of_bits(b, t)), (parts.pattern.clone(), parts.config.clone()))?;
            let made = |w: RegexWrapper| -> crate::Check {
                crate::same(None, show(w.get_no_compile()))?; let copy = w.clone();
                for _ in 0..3 { crate::same(want.clone(), show(w.get().ok()))?; crate::same(want.clone(), show(w.get_no_compile()))?; }
                crate::same(want.clone(), show(copy.get().ok()))?; crate::same(want.clone(), show(w.clone().get_no_compile()))?;
                crate::same(true, w == copy)?; crate::same(true, *w.parts() == parts && *AsRef::<RegexParts>::as_ref(&w) == parts && RegexParts::from(w.clone()) == parts)?;
                crate::same(want.clone(), show(::regex::Regex::try_from(w.clone()).ok().as_ref()))?; crate::same(want.clone(), show(::regex::Regex::try_from(RegexWrapper::from(parts.clone())).ok().as_ref()))?;
                let back: RegexWrapper = crate::de1(&serde_json::to_value(&w).map_err(|e| ("it can be written".to_string(), e.to_string()))?); crate::same(want.clone(), show(back.get().ok()))
            };
            made(RegexWrapper::from(parts.clone()))?; made(crate::de1(&j))?; if bare { made(RegexWrapper::from(p.as_str()))?; made(RegexWrapper::from_str(&p).unwrap())?; crate::same(parts.clone(), RegexParts::from(p.clone()))?; crate::same(parts.clone(), RegexParts::from_str(&p).unwrap())?; }
            crate::same(want.clone(), show(parts.build().ok().as_ref()))?; crate::same(want.clone(), show(::regex::Regex::try_from(&parts).ok().as_ref()))?; crate::same(want.clone(), show(::regex::Regex::try_from(parts.clone()).ok().as_ref()))?;
            if k % 30 == 7 { let w = RegexWrapper::from(parts.clone()); let all: Vec<_> = std::thread::scope(|s| { let h: Vec<_> = (0..4).map(|_| s.spawn(|| show(w.get().ok()))).collect(); h.into_iter().map(|h| h.join().unwrap()).collect() }); crate::same(vec![want.clone(); 4], all)?; }
            Ok(())
        });
    }
    // a pattern that is too big is an error each time
    cx.case("regex/too-big", "a{1000}{1000}{100}".to_string(), || { let w = RegexWrapper::from("a{1000}{1000}{100}"); for _ in 0..2 { crate::same(false, w.get().is_ok())?; crate::same(false, w.get_no_compile().is_some())?; } crate::same(false, w.parts().build().is_ok()) });
    // two patterns with different settings are told apart
    for _ in 0..100 * cx.scale { let r = &mut cx.rng; let (p, q) = (*r.pick(PATTERNS), *r.pick(PATTERNS)); let (b, c) = (gen_bits(r), if r.chance(1, 2) { plain } else { gen_bits(r) });
        cx.case("regex/equal", format!("{p:?} {b:?} and {q:?} {c:?}"), || { let mk = |p: &str, b| RegexWrapper::from(RegexParts { pattern: p.into(), config: of_bits(b, 10) }); let (x, y, z) = (mk(p, b), mk(q, c), mk(p, c)); let _ = x.get(); crate::same((p == q && b == c, b == c, true), (x == y, x == z, x == mk(p, b))) }); }
}
// ---- Base64
fn enc(t: &[u8], url: bool, pad: bool) -> String { let mut c: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect(); c.extend(if url { b"-_" } else { b"+/" });
    let mut o = String::new(); for g in t.chunks(3) { let n = (g[0] as u32) << 16 | (*g.get(1).unwrap_or(&0) as u32) << 8 | *g.get(2).unwrap_or(&0) as u32; for i in 0..4 { if i <= g.len() { o.push(c[(n >> (18 - 6 * i)) as usize & 63] as char) } else if pad { o.push('=') } } } o }
/// `need`: Some(true) padding is required, Some(false) it is refused, None either.
fn dec(t: &str, url: bool, need: Option<bool>) -> Option<Vec<u8>> {
    let body = t.trim_end_matches('='); let pads = t.len() - body.len(); let full = (4 - body.len() % 4) % 4; if body.len() % 4 == 1 { return None }
    let ok = match need { Some(true) => pads == full, Some(false) => pads == 0, None => pads <= full }; if !ok { return None }
    let mut o = vec![]; let (mut acc, mut nb) = (0u32, 0); for b in body.bytes() { let v = match b { b'A'..=b'Z' => b - b'A', b'a'..=b'z' => b - b'a' + 26, b'0'..=b'9' => b - b'0' + 52, b'-' if url => 62, b'_' if url => 63, b'+' if !url => 62, b'/' if !url => 63, _ => return None }; acc = acc << 6 | v as u32; nb += 6; if nb >= 8 { nb -= 8; o.push((acc >> nb) as u8); acc &= (1 << nb) - 1; } }
    if acc != 0 { return None } Some(o)
}
fn apply(m: &StringModification, t: &str) -> Option<String> {
    let (com, jc, ctx, sc, params, url) = (Commons::default(), JobContext::default(), TaskContext::default(), JobScratchpad::default(), Params::default(), BetterUrl::parse("https://e.com/").unwrap());
    let view = TaskStateView { url: &url, scratchpad: &sc, common_args: None, context: &ctx, job_context: &jc, params: &params, commons: &com };
    let mut s = t.to_string(); m.apply(&mut s, &view).ok().map(|_| s)
}
fn b64(cx: &mut Cx) {
    for k in 0..1500 * cx.scale {
        let r = &mut cx.rng; let (url, pad, need) = if k % 4 == 0 { (true, true, None) } else { (r.chance(1, 2), r.chance(1, 2), *r.pick(&[None, Some(true), Some(false)])) };
        let mut m = Map::new(); if !url || r.chance(1, 3) { m.insert("alphabet".into(), json!(if url { "UrlSafe" } else { "Standard" })); } if !pad || r.chance(1, 3) { m.insert("encode_padding".into(), json!(pad)); } if need.is_some() || r.chance(1, 3) { m.insert("decode_padding".into(), json!(match need { None => "Indifferent", Some(true) => "RequireCanonical", _ => "RequireNone" })); }
        let t = if r.chance(1, 2) { gen_::text(r, 9) } else { r.pick(&["???>>>", "~~~", "ÿ÷ÿ", "a", "ab", "abc", "", "🙂🙂", "÷÷>", "ûï¾"]).to_string() };
        let mut e = enc(t.as_bytes(), r.chance(1, 2), r.chance(2, 3)); match r.below(8) { 0 => { e.push('='); } 1 => { e.pop(); } 2 => { let i = r.below(e.len() + 1); e.insert(i, *r.pick(&['-', '_', '+', '/', 'A', '=', ' '])); } 3 => { e = enc(&[0xff, 0xfe, r.below(256) as u8][..1 + r.below(3)], url, pad); } _ => {} }
        let bare = m.is_empty() && r.chance(1, 2); let c = Value::Object(m);
        cx.case("base64", format!("{} on {t:?}, {e:?}", if bare { "bare".to_string() } else { c.to_string() }), || {
            let (x, y): (StringModification, StringModification) = if bare { (crate::de1(&json!("Base64Encode")), crate::de1(&json!("Base64Decode"))) } else { (crate::de1(&json!({"Base64Encode": c})), crate::de1(&json!({"Base64Decode": c}))) };
            crate::same(Some(enc(t.as_bytes(), url, pad)), apply(&x, &t))?; crate::same(dec(&e, url, need).and_then(|v| String::from_utf8(v).ok()), apply(&y, &e))?;
            if bare { crate::same(true, crate::de1::<Base64Config>(&json!({})) == Base64Config::default())?; } Ok(())
        });
    }
}
// ---- URL-escapes
fn escapes(cx: &mut Cx) {
    let mut all: Vec<String> = (0u8..128).map(|b| format!("a{}z", b as char)).collect(); all.extend(["é", "日本🙂", "\u{80}", "\u{7ff}\u{800}\u{10ffff}", "a b&c=d/e?f#g%20"].map(String::from)); for _ in 0..60 * cx.scale { all.push(gen_::text(&mut cx.rng, 12)); }
    for t in &all { for (n, keep) in [("JsEncodeUriComponent", "-_.!~*'()"), ("JsEncodeUri", "-_.!~*'();/?:@&=+$,#"), ("NonAlphanumeric", ""), ("", "-_.!~*'()")] {
        cx.case("escape", format!("{n} on {t:?}"), || { let m: StringModification = crate::de1(&if n.is_empty() { json!("UrlEncode") } else { json!({"UrlEncode": n}) });
            let mut w = String::new(); for b in t.bytes() { if b.is_ascii_alphanumeric() || keep.as_bytes().contains(&b) { w.push(b as char) } else { w.push_str(&format!("%{b:02X}")) } }
            crate::same(Some(w.clone()), apply(&m, t))?; crate::same(Some(t.clone()), apply(&crate::de1(&json!("UrlDecode")), &w)) });
    } }
}
// ---- globs
fn globs(cx: &mut Cx) {
    const PS: &[&str] = &["*", "a*", "A*", "*.txt", "?", "[ab]*", "[!a]", "**/b", "a/**", "a/*/b", ".*", "*/.*", "a/?b", "***", "[", "a**", "É", "[a-z]x"]; const TS: &[&str] = &["", "a", "A", "abc", "ABC", ".a", "a/b", "a/x/b", "a/.b", ".txt", "x.TXT", "a/b/c", "é", "b", "/b", "a/b/.c", "ax", "AX"];
    for p in PS { for b in 0..9 {
        let (cs, sep, dot) = if b == 8 { (true, false, false) } else { (b & 1 > 0, b & 2 > 0, b & 4 > 0) }; let o = ::glob::MatchOptions { case_sensitive: cs, require_literal_separator: sep, require_literal_leading_dot: dot };
        for skip in [false, true] { let j = if b == 8 { json!(p) } else { let mut m = json!({"pattern": p, "case_sensitive": cs, "require_literal_separator": sep, "require_literal_leading_dot": dot}); if skip { let m = m.as_object_mut().unwrap(); if cs { m.remove("case_sensitive"); } if !sep { m.remove("require_literal_separator"); } if dot { m.remove("require_literal_leading_dot"); } } m };
            cx.case("glob", j.to_string(), || {
                let want = ::glob::Pattern::new(p).ok().map(|g| TS.iter().map(|t| (g.matches_with(t, o), g.matches_path_with(std::path::Path::new(t), o))).collect::<Vec<_>>());
                let see = |g: Option<GlobWrapper>| g.map(|g| TS.iter().map(|t| (g.matches(t), g.matches_path(std::path::Path::new(t)))).collect::<Vec<_>>());
                let g: Option<GlobWrapper> = serde_json::from_value(j.clone()).ok(); crate::same(want.clone(), see(g.clone()))?;
                if let Some(g) = &g { let back: GlobWrapper = crate::de1(&serde_json::to_value(g).unwrap()); crate::same(true, back == *g)?; crate::same(want.clone(), see(Some(back)))?; }
                if b == 8 { crate::same(want.clone(), see(GlobWrapper::from_str(p).ok()))?; crate::same(want.clone(), see(GlobWrapper::try_from(*p).ok()))?; crate::same(want.clone(), see(::glob::Pattern::new(p).ok().map(Into::into)))?; } Ok(()) });
        } } }
}
