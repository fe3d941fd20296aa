//! P01-P03: host parts, cached host details, host part writes.
use crate::{gen_::*, real::*, *};
use url_cleaner::types::*;
use url::Url;

/// Independent host analysis of a URL (psl and url are the trusted dependencies).
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Parts { pub domain: Option<String>, pub sub: Option<String>, pub reg: Option<String>, pub mid: Option<String>, pub suf: Option<String>, pub notsuf: Option<String>, pub dot: Option<String> }
pub fn parts(u: &Url) -> Parts {
    let Some(url::Host::Domain(h)) = u.host() else { return Parts::default() };
    let h = h.to_string();
    let (d, dot) = match h.strip_suffix('.') { Some(d) => (d.to_string(), true), None => (h.clone(), false) };
    let mut p = Parts { domain: Some(d.clone()), dot: dot.then(|| ".".to_string()), ..Default::default() };
    let suf = psl::suffix_str(&h).map(str::to_string); let reg = psl::domain_str(&h).map(str::to_string);
    if let Some(s) = &suf { let st = d.len() - s.len(); assert!(d.ends_with(s.as_str())); if st > 0 { p.notsuf = Some(d[..st - 1].to_string()); }
        if let Some(r) = &reg { assert!(d.ends_with(r.as_str())); let ms = d.len() - r.len(); if st > 0 && ms < st { p.mid = Some(d[ms..st - 1].to_string()); } } }
    if let Some(r) = &reg { let ms = d.len() - r.len(); if ms > 0 { p.sub = Some(d[..ms - 1].to_string()); } }
    p.suf = suf; p.reg = reg; p
}
fn real_parts(b: &BetterUrl) -> Parts {
    let s = |x: Option<&str>| x.map(str::to_string);
    Parts { domain: s(b.domain()), sub: s(b.subdomain()), reg: s(b.reg_domain()), mid: s(b.domain_middle()), suf: s(b.domain_suffix()), notsuf: s(b.not_domain_suffix()), dot: s(b.fqdn_period()) }
}
const SPECIAL_VALUES: &[&str] = &["example.org", "EXAMPLE.CO.UK", "a", "a.b", "www", "", ".", "..", "example.com.", "example.com。", "1.2.3.4", "[::1]", "localhost", "%41", "a b", "a/b", "a:80", "münchen", "co.uk", "com", "1.2.3.4.5", "x.", ".x", "a..b", "0x7f", "1", "日本", "b%2ec", "a@b", "#", "\u{ad}"];
fn value(r: &mut Rng) -> Option<String> { if r.chance(1, 5) { None } else if r.chance(3, 4) { Some(r.pick(SPECIAL_VALUES).to_string()) } else { Some(text(r, 6)) } }

pub fn p01(cx: &mut Cx) {
    cx.rule = "URLs over all scheme kinds and hosts (bare/unknown/multi-label suffixes, trailing dots, empty labels, IPs, none) plus random hosts; parts compared with an independent analysis and recomposed".into();
    let mut us: Vec<Url> = vec![];
    for h in HOSTS { for s in ["https", "foo", "file", "http"] { if let Ok(u) = Url::parse(&format!("{s}://{h}/x?y#z")) { us.push(u) } } }
    for _ in 0..8000 * cx.scale {
        let r = &mut cx.rng;
        if r.chance(1, 2) { us.push(url(r)); continue }
        let labels = ["a", "b", "www", "", "com", "co", "uk", "example", "blogspot", "github", "io", "kawasaki", "jp", "city", "xn--p1ai", "日本", "1", "ck"];
        let n = 1 + r.below(5); let h: Vec<&str> = (0..n).map(|_| *r.pick(&labels)).collect();
        if let Ok(u) = Url::parse(&format!("{}://{}{}/", r.pick(&["https", "foo", "ftp"]), h.join("."), r.pick(&["", ".", ".."]))) { us.push(u) }
    }
    for u in us {
        let want = parts(&u);
        let b: BetterUrl = u.clone().into();
        cx.case("host-parts", u.as_str(), || same(want.clone(), real_parts(&b)));
        cx.case("host-partition", u.as_str(), || {
            let p = real_parts(&b);
            let joined: Option<String> = p.domain.as_ref().map(|_| { let v: Vec<String> = [&p.sub, &p.mid, &p.suf].into_iter().flatten().cloned().collect(); v.join(".") + p.dot.as_deref().unwrap_or("") });
            let host = match u.host() { Some(url::Host::Domain(d)) => Some(d.to_string()), _ => None };
            // a leading empty label before a bare suffix belongs to the not-suffix part only
            let alt = p.domain.as_ref().map(|_| { let v: Vec<String> = [&p.notsuf, &p.suf].into_iter().flatten().cloned().collect(); v.join(".") + p.dot.as_deref().unwrap_or("") });
            if p.mid.is_some() { same(host.clone(), joined)?; } same(host, alt)
        });
        for (n, f) in [("Domain", &want.domain), ("Subdomain", &want.sub), ("RegDomain", &want.reg), ("DomainMiddle", &want.mid), ("DomainSuffix", &want.suf), ("NotDomainSuffix", &want.notsuf), ("FqdnPeriod", &want.dot)] {
            let part: UrlPart = de(&serde_json::json!(n));
            cx.case("part-read", format!("{n} of {u}"), || same(f.clone(), part.get(&b).map(|x| x.into_owned())));
        }
    }
}
fn fresh(b: &BetterUrl) -> String { match BetterUrl::parse(b.as_str()) { Ok(f) => format!("{:?} {:?}", f.host_details(), parts(&Url::parse(b.as_str()).unwrap())), Err(e) => format!("unparseable {e}") } }

/// Reference for the host part writes: the composed host text, or None when the write is refused up front.
pub fn compose(u: &Url, part: &str, to: Option<&str>) -> Option<String> {
    let p = parts(u); let dom = matches!(u.host(), Some(url::Host::Domain(_)));
    if !dom { return None }
    let dot = if p.dot.is_some() { "." } else { "" };
    let j = |v: Vec<Option<&str>>| { let w: Vec<&str> = v.into_iter().flatten().collect(); Some(w.join(".") + dot) };
    match part {
        "Subdomain" => if p.reg.is_none() { None } else { j(vec![to, p.reg.as_deref()]) },
        "NotDomainSuffix" => if p.suf.is_none() { None } else { j(vec![to, p.suf.as_deref()]) },
        "DomainMiddle" => if p.suf.is_none() { None } else { j(vec![p.sub.as_deref(), to, p.suf.as_deref()]) },
        "RegDomain" => j(vec![p.sub.as_deref(), to]),
        "DomainSuffix" => j(vec![p.notsuf.as_deref(), to]),
        _ => unreachable!(),
    }
}
/// Set the host to `h`, which must parse as a domain.
fn set_dom(u: &Url, h: &str) -> Option<Url> { if !matches!(url::Host::parse(h), Ok(url::Host::Domain(_))) { return None } let mut v = u.clone(); v.set_host(Some(h)).ok()?; Some(v) }
pub fn rset(u: &Url, part: &str, to: Option<&str>) -> Option<Url> {
    match part {
        "Domain" => match to { Some(t) => set_dom(u, &format!("{t}{}", if parts(u).dot.is_some() { "." } else { "" })), None => { let mut v = u.clone(); v.set_host(None).ok()?; Some(v) } },
        "FqdnPeriod" => { let Some(url::Host::Domain(h)) = u.host() else { return None }; let h = h.to_string();
            match (to, h.strip_suffix('.')) { (Some("."), None) => { let mut v = u.clone(); v.set_host(Some(&format!("{h}."))).ok()?; Some(v) } (None, Some(x)) => { let mut v = u.clone(); v.set_host(Some(x)).ok()?; Some(v) } (Some("."), Some(_)) | (None, None) => Some(u.clone()), _ => None } }
        _ => set_dom(u, &compose(u, part, to)?),
    }
}
pub const DPARTS: &[&str] = &["Domain", "Subdomain", "RegDomain", "DomainMiddle", "DomainSuffix", "NotDomainSuffix", "FqdnPeriod"];
fn direct(b: &mut BetterUrl, part: &str, to: Option<&str>) -> bool {
    match part { "Domain" => b.set_domain(to).is_ok(), "Subdomain" => b.set_subdomain(to).is_ok(), "RegDomain" => b.set_reg_domain(to).is_ok(), "DomainMiddle" => b.set_domain_middle(to).is_ok(), "DomainSuffix" => b.set_domain_suffix(to).is_ok(), "NotDomainSuffix" => b.set_not_domain_suffix(to).is_ok(), _ => b.set_fqdn(to.is_some()).is_ok() }
}
pub fn p03(cx: &mut Cx) {
    cx.rule = "URL x domain part x value (present, absent, odd: IPs, dots, unicode, forbidden characters); new URL compared with replacing the host by the composed text".into();
    let mut jobs: Vec<(Url, &str, Option<String>)> = vec![];
    for h in HOSTS { for s in ["https", "foo", "file"] { if let Ok(u) = Url::parse(&format!("{s}://{h}/x?y#z")) { for p in DPARTS { for t in [None, Some("a"), Some("x.y"), Some("example.org"), Some("."), Some("")] { jobs.push((u.clone(), p, t.map(str::to_string))); } } } } }
    for _ in 0..15000 * cx.scale { let r = &mut cx.rng; let u = url(r); let p = *r.pick(DPARTS); let v = if p == "FqdnPeriod" && r.chance(1, 2) { Some(".".into()) } else { value(r) }; jobs.push((u, p, v)); }
    for (u, p, to) in jobs {
        let e = match rset(&u, p, to.as_deref()) { Some(v) => (v.to_string(), true), None => (u.to_string(), false) };
        let part: UrlPart = de(&serde_json::json!(p));
        cx.case("write-domain-part", format!("{p} := {to:?} in {u}"), || { let mut b: BetterUrl = u.clone().into(); let ok = part.set(&mut b, to.as_deref()).is_ok(); same(e.clone(), (b.to_string(), ok)) });
        if p != "FqdnPeriod" || matches!(to.as_deref(), None | Some(".")) {
            cx.case("set-domain-part", format!("{p} := {to:?} in {u}"), || { let mut b: BetterUrl = u.clone().into(); let ok = direct(&mut b, p, to.as_deref()); same(e.clone(), (b.to_string(), ok)) });
        }
    }
}
pub fn p02(cx: &mut Cx) {
    cx.rule = "random histories of 1-8 mutations (all setters, valid and refused arguments) on URLs of every scheme kind; after each step the cached analysis and the parts equal those of the re-parsed URL".into();
    for _ in 0..6000 * cx.scale {
        let r = &mut cx.rng;
        let u = url(r); let mut b: BetterUrl = u.clone().into();
        let n = 1 + r.below(8);
        let mut hist = format!("{u}");
        for _ in 0..n {
            let r = &mut cx.rng;
            let v = value(r);
            let op = r.below(16);
            let ip: std::net::IpAddr = if r.chance(1, 2) { "1.2.3.4".parse().unwrap() } else { "::1".parse().unwrap() };
            let parts_all = ["Whole", "Scheme", "Username", "Password", "Host", "HostWithoutWWWDotPrefixAndFqdnPeriod", "Port", "Path", "Query", "Fragment"];
            let wp = *r.pick(&parts_all); let dp = *r.pick(DPARTS);
            let sc = *r.pick(&["http", "https", "foo", "file", "bar", "1"]); let nu = url_string(r);
            let seg = serde_json::json!({*r.pick(&["DomainSegment", "SubdomainSegment", "DomainSuffixSegment", "BeforeDomainSegment", "AfterDomainSuffixSegment"]): r.range(-3, 3)});
            let name = match op { 0 => format!("set_ip_host({ip})"), 1 => format!("scheme={sc}"), 2 => format!("Whole={nu}"), 3 | 4 => format!("{wp}={v:?}"), 5 => format!("set_host({v:?})"), 6 => format!("set_domain_host({v:?})"), 7 => format!("{seg}={v:?}"), 8 => "set_fqdn(true)".into(), 9 => "set_fqdn(false)".into(), _ => format!("{dp}={v:?}") };
            hist.push_str(" ; "); hist.push_str(&name);
            let before = b.clone();
            let h2 = hist.clone();
            let mut after = None;
            cx.case("history", h2, || {
                let mut b = before.clone();
                match op { 0 => { let _ = b.set_ip_host(ip); } 1 => { let _ = b.set_scheme(sc); } 2 => { let p: UrlPart = de(&serde_json::json!("Whole")); let _ = p.set(&mut b, Some(&nu)); }
                    3 | 4 => { let p: UrlPart = de(&serde_json::json!(wp)); let _ = p.set(&mut b, v.as_deref()); } 5 => { let _ = b.set_host(v.as_deref()); } 6 => { let _ = b.set_domain_host(v.as_deref().unwrap_or("x.org")); }
                    7 => { let p: UrlPart = de(&seg); let _ = p.set(&mut b, v.as_deref()); } 8 => { let _ = b.set_fqdn(true); } 9 => { let _ = b.set_fqdn(false); } _ => { let _ = direct(&mut b, dp, v.as_deref()); } }
                let got = format!("{:?} {:?}", b.host_details(), real_parts(&b));
                // (the url crate's set_ip_host leaves an IP host on schemes whose hosts re-parse as opaque text: there the analysis of the current host is the reference)
                let u: Url = b.clone().into(); let same_host = Url::parse(b.as_str()).is_ok_and(|x| x.as_str() == b.as_str() && x.host() == u.host());
                let want = if same_host { fresh(&b) } else { let f: BetterUrl = u.clone().into(); format!("{:?} {:?}", f.host_details(), parts(&u)) };
                after = Some(b);
                same(want, got)
            });
            match after { Some(x) => b = x, None => break }
        }
    }
}
