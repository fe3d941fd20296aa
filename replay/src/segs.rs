//! P05: segment addressing.
use crate::{gen_::*, real::*, *};
use serde_json::json;
use url_cleaner::types::*;

pub fn ridx(i: isize, n: usize) -> Option<usize> {
    let (i, n) = (i as i128, n as i128);
    if 0 <= i && i < n { Some(i as usize) } else if -n <= i && i < 0 { Some((n + i) as usize) } else { None }
}
pub fn rbound(i: isize, n: usize) -> Option<usize> { if i as i128 == n as i128 { Some(n) } else { ridx(i, n) } }
pub fn rrange(s: isize, e: Option<isize>, n: usize) -> Option<(usize, usize)> {
    let lo = rbound(s, n)?;
    let hi = match e { None => n, Some(e) => rbound(e, n)? };
    if hi < lo { None } else { Some((lo, hi)) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel { Before, At, After }
/// None = error
pub fn rseg(segs: &[String], i: isize, rel: Rel, to: Option<&str>) -> Option<Vec<String>> {
    let mut v = segs.to_vec();
    match (ridx(i, v.len()), to) {
        (None, Some(_)) => return None,
        (None, None) => {}
        (Some(k), None) => if rel == Rel::At { v.remove(k); },
        (Some(k), Some(t)) => match rel { Rel::At => v[k] = t.into(), Rel::Before => v.insert(k, t.into()), Rel::After => v.insert(k + 1, t.into()) },
    }
    Some(v)
}
pub fn split(s: &str, by: &str) -> Vec<String> {
    // an independent splitter: scan for non-overlapping occurrences from the left; an empty separator cuts at every boundary
    if by.is_empty() { let mut v = vec![String::new()]; v.extend(s.chars().map(String::from)); v.push(String::new()); return v }
    let mut v = vec![]; let mut last = 0; let mut i = 0;
    while i + by.len() <= s.len() { if &s.as_bytes()[i..i + by.len()] == by.as_bytes() { v.push(s[last..i].to_string()); i += by.len(); last = i; } else { i += 1 } }
    v.push(s[last..].to_string()); v
}
fn q(u: &BetterUrl) -> String { format!("{} {:?}", u.as_str(), u.host_details()) }

fn texts(cx: &mut Cx) {
    let u = burl("https://example.com"); let w = World::default();
    let n = 6000 * cx.scale;
    for k in 0..n {
        let r = &mut cx.rng;
        let (s, by) = if k < 60 { (["", "a", "a.b", "a.b.c", ".", "..", "a..b", "é.ß", "a.b.c.d"][k % 9].to_string(), ["."; 1][0].to_string()) } else { (text(r, 9), if r.chance(1, 2) { ".".into() } else { text(r, 2) }) };
        let i = if k < 60 { k as isize / 4 - 7 } else { index(r) };
        let segs = split(&s, &by);
        let val = if r.chance(1, 4) { None } else { Some(word(r)) };
        let src = match &val { Some(v) => json!(v), None => json!("None") };
        // `"None"` as a bare string would be the literal; use the variant form
        let src = if val.is_none() { json!({"NoneTo": {"value": src, "if_none": null}}) } else { src };
        let _ = &src;
        match r.below(4) {
            0 => { let c = json!({"KeepNthSegment": {"split": by, "index": i}});
                let e = match ridx(i, segs.len()) { Some(k) => (segs[k].clone(), true), None => (s.clone(), false) };
                cx.case("keep-nth-segment", format!("{c} on {s:?}"), || same(e, modify(&c, &s, &u, &w))); }
            1 => { let e_ = opt_index(r); let c = json!({"KeepSegmentRange": {"split": by, "start": i, "end": e_}});
                let e = match rrange(i, e_, segs.len()) { Some((a, b)) => (segs[a..b].join(&by), true), None => (s.clone(), false) };
                cx.case("keep-segment-range", format!("{c} on {s:?}"), || same(e, modify(&c, &s, &u, &w))); }
            2 => { let v = src_of(&val); let c = json!({"SetSegment": {"split": by, "index": i, "value": v}});
                let e = match ridx(i, segs.len()) { Some(k) => { let mut t = segs.clone(); match &val { Some(x) => t[k] = x.clone(), None => { t.remove(k); } } (t.join(&by), true) } None => (s.clone(), false) };
                cx.case("set-segment", format!("{c} on {s:?}"), || same(e, modify(&c, &s, &u, &w))); }
            _ => { let v = src_of(&val); let c = json!({"InsertSegment": {"split": by, "index": i, "value": v}});
                let e = match rbound(i, segs.len()) { Some(k) => { let mut t = segs.clone(); if let Some(x) = &val { t.insert(k, x.clone()); } (t.join(&by), true) } None => (s.clone(), false) };
                cx.case("insert-segment", format!("{c} on {s:?}"), || same(e, modify(&c, &s, &u, &w))); }
        }
    }
    // byte ranges share the range arithmetic
    for _ in 0..2000 * cx.scale {
        let r = &mut cx.rng;
        let (s, a, b) = (text(r, 8), index(r), opt_index(r));
        let c = json!({"KeepRange": {"start": a, "end": b}});
        let e = match rrange(a, b, s.len()) { Some((x, y)) if s.is_char_boundary(x) && s.is_char_boundary(y) => (s[x..y].to_string(), true), _ => (s.clone(), false) };
        cx.case("keep-range", format!("{c} on {s:?}"), || same(e, modify(&c, &s, &u, &w)));
    }
}
/// A source for a present or absent value.
pub fn src_of(v: &Option<String>) -> serde_json::Value { match v { Some(v) => json!({"String": v}), None => json!({"Var": {"type": "TaskContext", "name": "never set"}}) } }

fn url_segments(cx: &mut Cx) {
    let fams: [(&str, &str, &str); 4] = [("DomainSegment", "Domain", "."), ("SubdomainSegment", "Subdomain", "."), ("DomainSuffixSegment", "DomainSuffix", "."), ("PathSegment", "Path", "/")];
    for k in 0..12000 * cx.scale {
        let r = &mut cx.rng;
        let us = url(r).to_string(); let b = burl(&us);
        let (seg, whole, sep) = *r.pick(&fams);
        let base: Option<String> = match whole { "Path" => if b.cannot_be_a_base() { None } else { b.path().strip_prefix('/').map(|x| x.to_string()) }, _ => { let p: UrlPart = de(&json!(whole)); p.get(&b).map(|x| x.into_owned()) } };
        let segs = base.as_deref().map(|x| split(x, sep));
        let i = if k % 3 == 0 { index(r) } else { r.range(-4, 4) as isize };
        let rel = *r.pick(&[Rel::Before, Rel::At, Rel::After]);
        let to = if r.chance(1, 4) { None } else { Some(word(r)) };
        let next = r.chance(1, 6) && whole != "Path";
        let part = if next { json!(format!("Next{seg}")) } else { match rel { Rel::At => json!({seg: i}), Rel::Before => json!({format!("Before{seg}"): i}), Rel::After => json!({format!("After{seg}"): i}) } };
        let p: UrlPart = de(&part);
        // reading
        let want = if rel == Rel::At && !next { segs.as_ref().and_then(|s| ridx(i, s.len()).map(|k| s[k].clone())) } else { None };
        cx.case("read-segment", format!("{part} of {us}"), || same(want, p.get(&b).map(|x| x.into_owned())));
        // writing = writing the whole part with the edited segment list
        let (i2, rel2) = if next { (-1, Rel::After) } else { (i, rel) };
        let expect = segs.as_ref().and_then(|s| rseg(s, i2, rel2, to.as_deref())).and_then(|v| { let j = v.join(sep); let j = if j.is_empty() { None } else { Some(j) }; let mut c = b.clone(); let wp: UrlPart = de(&json!(whole)); wp.set(&mut c, j.as_deref()).ok().map(|_| c) });
        let e = match expect { Some(c) => (q(&c), true), None => (q(&b), false) };
        cx.case("write-segment", format!("{part} := {to:?} in {us}"), || { let mut c = b.clone(); let ok = p.set(&mut c, to.as_deref()).is_ok(); same(e, (q(&c), ok)) });
    }
}
pub fn run(cx: &mut Cx) {
    cx.rule = "random texts/URLs, segment lists, indices (near 0 and at the machine-integer limits) and values; compared with list arithmetic on mathematical integers; every case carries a distinct (input, operation) pair".into();
    texts(cx); url_segments(cx);
}
