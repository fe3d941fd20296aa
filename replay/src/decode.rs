//! P19: independent decoders (recursive descent over characters, not state machines).
#[derive(Debug, PartialEq, Clone)]
pub enum Js { Text(String), Bad, Unclaimed }
/// the value of the string literal at the start of `t`; legacy octal escapes and line continuations other than LF are not claimed
pub fn js3(t: &str) -> Js {
    let c: Vec<char> = t.chars().collect();
    let Some(&q) = c.first() else { return Js::Bad };
    if q != '"' && q != '\'' { return Js::Bad }
    let (mut i, mut out) = (1, String::new());
    let hex = |a: usize, n: usize| -> Option<u32> { let s: String = c.get(a..a + n)?.iter().collect(); if s.chars().all(|x| x.is_ascii_hexdigit()) { u32::from_str_radix(&s, 16).ok() } else { None } };
    loop {
        let Some(&x) = c.get(i) else { return Js::Bad };
        if x == q { return Js::Text(out) }
        if x != '\\' { out.push(x); i += 1; continue }
        let Some(&e) = c.get(i + 1) else { return Js::Bad };
        match e {
            '\n' => i += 2,
            '\r' | '\u{2028}' | '\u{2029}' | '1'..='7' => return Js::Unclaimed,
            '0' if c.get(i + 2).is_some_and(|x| x.is_ascii_digit()) => return Js::Unclaimed,
            'x' | 'u' => {
                let (v, next) = if e == 'x' { (hex(i + 2, 2), i + 4) } else if c.get(i + 2) == Some(&'{') {
                    let Some(n) = c[i + 3..].iter().position(|x| *x == '}') else { return Js::Bad };
                    (if (1..=5).contains(&n) { hex(i + 3, n) } else { None }, i + 4 + n)
                } else { (hex(i + 2, 4), i + 6) };
                match v.and_then(char::from_u32) { Some(ch) => { out.push(ch); i = next } None => return Js::Bad }
            }
            _ => { out.push(match e { '0' => '\0', 'b' => '\x08', 't' => '\t', 'n' => '\n', 'v' => '\x0b', 'f' => '\x0c', 'r' => '\r', e => e }); i += 2 }
        }
    }
}
/// for the interpreter: where nothing is claimed, the decoder's own answer
pub fn js(t: &str) -> Option<String> { match js3(t) { Js::Text(x) => Some(x), Js::Bad => None, Js::Unclaimed => url_cleaner::glue::parse::js::string_literal_prefix(t).ok() } }
fn entities() -> &'static std::collections::HashMap<&'static str, String> {
    static E: std::sync::OnceLock<std::collections::HashMap<&'static str, String>> = std::sync::OnceLock::new();
    E.get_or_init(|| include_str!("ents.txt").lines().map(|l| { let (k, v) = l.split_once('\t').unwrap(); (k, v.split(' ').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect()) }).collect())
}
pub fn cref(r: &str) -> Option<String> {
    let Some(n) = r.strip_prefix('#') else { return entities().get(r).cloned() };
    let (d, radix) = match n.strip_prefix(['x', 'X']) { Some(h) => (h, 16), None => (n, 10) };
    if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit() || radix == 16 && c.is_ascii_hexdigit()) { return None }
    let d = d.trim_start_matches('0');
    if d.len() > 9 { return None }
    let c = char::from_u32(u32::from_str_radix(if d.is_empty() { "0" } else { d }, radix).ok()?)?;
    if c.is_control() || c.is_whitespace() { None } else { Some(c.to_string()) }
}
pub fn html(t: &str) -> Option<String> {
    let mut out = String::new(); let mut rest = t;
    while let Some(a) = rest.find('&') {
        out.push_str(&rest[..a]); rest = &rest[a + 1..];
        let e = rest.find([';', '&'])?; if !rest[e..].starts_with(';') { return None }
        out.push_str(&cref(&rest[..e])?); rest = &rest[e + 1..];
    }
    out.push_str(rest); Some(out)
}
type Attrs = Vec<(String, Option<String>)>;
/// the attributes of the start tag at the beginning of `t`, None for anything the HTML standard calls a parse error or that does not end
pub fn attributes(t: &str) -> Option<Attrs> {
    let c: Vec<char> = t.chars().collect(); let at = |i: usize| c.get(i).copied(); let ws = |x: char| "\t\r\n ".contains(x);
    let take = |from: usize, to: usize| c[from..to].iter().collect::<String>();
    if at(0)? != '<' || !at(1)?.is_ascii_alphabetic() { return None }
    let mut i = 2; while !ws(at(i)?) && at(i)? != '/' && at(i)? != '>' { if at(i)? == '\0' { return None } i += 1 }
    let mut out: Attrs = vec![]; let mut need_gap = false;
    loop {
        let gap = i; while ws(at(i)?) { i += 1 }
        match at(i)? { '>' => return Some(out), '/' => return if at(i + 1)? == '>' { Some(out) } else { None }, '=' => return None, _ => if need_gap && gap == i { return None } }
        let s = i; while !ws(at(i)?) && !['/', '>', '='].contains(&at(i)?) { if ['\0', '"', '\'', '<'].contains(&at(i)?) { return None } i += 1 }
        let name = take(s, i); let mut j = i; while ws(at(j)?) { j += 1 }
        if at(j)? != '=' { out.push((name, None)); need_gap = false; continue }
        i = j + 1; while ws(at(i)?) { i += 1 }
        match at(i)? {
            '>' => return None,
            q @ ('"' | '\'') => { let s = i + 1; i = s; while at(i)? != q { if at(i)? == '\0' { return None } i += 1 } out.push((name, Some(take(s, i)))); i += 1; need_gap = true; }
            _ => { let s = i; while !ws(at(i)?) && at(i)? != '>' { if at(i)? == '\0' { return None } i += 1 } out.push((name, Some(take(s, i)))); need_gap = false; }
        }
    }
}
pub fn attribute(t: &str, name: &str) -> Option<Option<Option<String>>> {
    match attributes(t)?.into_iter().rev().find(|(n, _)| n == name) { None => Some(None), Some((_, None)) => Some(Some(None)), Some((_, Some(v))) => Some(Some(Some(html(&v)?))) }
}
use crate::{Cx, same};
use url_cleaner::glue::parse;
fn soup(r: &mut crate::Rng, pool: &[&str], n: usize) -> String { (0..r.below(n + 1)).map(|_| *r.pick(pool)).collect() }
pub fn p19(cx: &mut Cx) {
    cx.rule = "every named character reference of the HTML standard (and near misses), numeric references around every limit, random sequences of JavaScript, HTML text and start tag tokens, each with every truncation; compared with recursive-descent decoders written from the language definitions".into();
    let all: Vec<(&str, &String)> = entities().iter().map(|(k, v)| (*k, v)).collect();
    for (k, v) in all {
        cx.case("named", format!("&{k};"), || same(Some(v.clone()), parse::html::parse_char_ref(k).ok().map(|x| x.into_owned())));
        for m in [k[..k.len() - 1].to_string(), format!("{k}x"), k.to_uppercase(), k.to_lowercase(), format!(" {k}"), format!("{k};")] { cx.case("named", format!("&{m};"), || same(cref(&m), parse::html::parse_char_ref(&m).ok().map(|x| x.into_owned()))); }
    }
    for n in (0..300u64).chain(0xD7F0..0xD810).chain(0xDFF0..0xE010).chain(0xFFF0..0x10010).chain(0x10FFF0..0x110010).chain([0xFFFFFFFF, 0x100000000, 0x100000041, 0x1000000000041]).chain((0..200).map(|i| i * 7919)) {
        for t in [format!("#{n}"), format!("#0{n}"), format!("#x{n:x}"), format!("#X00{n:X}"), format!("#{n}g"), format!("#x{n:x}g"), format!("{n}")] { cx.case("numeric", format!("&{t};"), || same(cref(&t), parse::html::parse_num_char_ref(&t).ok().map(|c| c.to_string()).or_else(|| if t.starts_with('#') { None } else { parse::html::parse_char_ref(&t).ok().map(|x| x.into_owned()) }))); }
    }
    for t in ["#", "#x", "#X", "", "x41", "##65", "#-1", "#+1", "#x+1", "#４", "# 65"] { cx.case("numeric", format!("&{t};"), || same(cref(t).map(|x| x.to_string()), parse::html::parse_char_ref(t).ok().map(|x| x.into_owned()))); }
    const J: &[&str] = &["\\", "\\", "\\", "\"", "'", "x", "u", "{", "}", "u{", "4", "8", "9", "0", "1", "7", "a", "F", "g", "f", "n", "b", "v", "t", "r", "\n", "é", "😀", "d8", "00", "x41", "x9f", "u00e9", "u{1f600}", "u{0000a}", "u{00000a}", "uD83D", " ", "`", "\r"];
    for k in 0..4000 * cx.scale {
        let r = &mut cx.rng; let q = *r.pick(&["\"", "'", "\"", "'", ""]); let body = soup(r, J, 12); let t = format!("{q}{body}{}{}", if r.chance(4, 5) { q } else { "" }, if r.chance(1, 2) { "after \\" } else { "" });
        let cuts: Vec<usize> = if k % 4 == 0 { (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect() } else { vec![t.len()] };
        for i in cuts { let t = &t[..i]; cx.case("js", format!("{t:?}"), || { let g = parse::js::string_literal_prefix(t); match js3(t) { Js::Unclaimed => Ok(()), w => same(w, g.map_or(Js::Bad, Js::Text)) } }); }
    }
    const H: &[&str] = &["&", "&", "amp", ";", ";", "a", "é", "#", "65", "x", "41", "&lt;", "&#39;", "&#x1F600;", "&nbsp;", "&NotEqualTilde;", " ", "&amp", "&;", "&&", "quot"];
    for _ in 0..4000 * cx.scale { let t = soup(&mut cx.rng, H, 9); cx.case("text", format!("{t:?}"), || same(html(&t), parse::html::unescape_text(&t).ok())); }
    const T: &[&str] = &[" ", " ", "\n", "\t", "href", "href", "hrefx", "id", "data-é", "=", "=", "=\"", "='", "\"", "'", "/", ">", "x", "é", "😀", "&amp;", "&", "\0", "<", "href=x", "href='é y'", "href=\"a&quot;b\"", "href", "disabled", " = "];
    for k in 0..8000 * cx.scale {
        let r = &mut cx.rng; let t = format!("{}{}{}", r.pick(&["<a ", "<a ", "<a", "<é ", "<", "<b1é ", "<a\n", "a", "<aé\t"]), soup(r, T, 9), r.pick(&[">", ">", "/>", " >", "", ">x\">"]));
        let name = *r.pick(&["href", "href", "href", "id", "é", "", "x", "disabled"]);
        let cuts: Vec<usize> = if k % 4 == 0 { (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect() } else { vec![t.len()] };
        for i in cuts { let t = &t[..i]; cx.case("attribute", format!("{name} in {t:?}"), || same(attribute(t, name), parse::html::get_attribute_value(t, name).ok())); }
    }
    // through the text modifications
    for _ in 0..600 * cx.scale {
        let r = &mut cx.rng; let w = r.below(3); let t = match w { 0 => format!("\"{}\"", soup(r, J, 6)), 1 => soup(r, H, 6), _ => format!("<a {}>", soup(r, T, 6)) };
        let m = [serde_json::json!("GetJsStringLiteralPrefix"), serde_json::json!("UnescapeHtmlText"), serde_json::json!({"GetHtmlAttribute": "href"})][w].clone();
        let want = match w { 0 => { if js3(&t) == Js::Unclaimed { continue } js(&t) } 1 => html(&t), _ => attribute(&t, "href").flatten().flatten() };
        cx.case("modification", format!("{m} on {t:?}"), || { let (g, ok) = crate::real::modify(&m, &t, &crate::real::burl("https://example.com/"), &Default::default()); same(want.clone(), if ok { Some(g) } else { None }) });
    }
}
