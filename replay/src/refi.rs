//! Reference interpreter: an independent definition of what configurations mean, over their JSON text.
use crate::{hosts, segs::*};
use serde_json::Value;
use url::Url;
pub type V = Value;
/// variant name and payload of an externally tagged enum value
pub fn var(v: &V) -> (&str, &V) { match v { V::String(s) => (s.as_str(), &V::Null), V::Object(o) if o.len() == 1 => { let (k, x) = o.iter().next().unwrap(); (k.as_str(), x) } _ => panic!("not a variant: {v}") } }
pub fn int(v: &V) -> isize { v.as_i64().unwrap_or_else(|| panic!("not an integer: {v}")) as isize }
pub fn qsel(v: &V) -> (String, usize) { match v { V::String(s) => (s.clone(), 0), _ => (v["name"].as_str().unwrap().into(), v["index"].as_u64().unwrap_or(0) as usize) } }
pub fn pairs(u: &Url) -> Vec<(String, String)> { u.query().map(|q| form_urlencoded::parse(q.as_bytes()).into_owned().collect()).unwrap_or_default() }
pub fn put_pairs(u: &mut Url, p: &[(String, String)]) { if p.is_empty() { u.set_query(None) } else { let mut s = form_urlencoded::Serializer::new(String::new()); for (k, v) in p { s.append_pair(k, v); } let q = s.finish(); u.set_query(Some(&q)) } }
fn www(h: &str) -> &str { let h = if h.len() >= 4 && &h.as_bytes()[..4] == b"www." { &h[4..] } else { h }; if h.as_bytes().last() == Some(&b'.') { &h[..h.len() - 1] } else { h } }
fn psegs(u: &Url) -> Option<Vec<String>> { if u.cannot_be_a_base() { None } else { Some(split(u.path().strip_prefix('/').unwrap_or(u.path()), "/")) } }
pub fn part_get(p: &V, u: &Url) -> Option<String> {
    let h = hosts::parts(u); let (n, x) = var(p);
    let nth = |d: Option<String>| { let s = split(&d?, "."); ridx(int(x), s.len()).map(|k| s[k].clone()) };
    match n {
        "Debug" => part_get(x, u), "Whole" => Some(u.as_str().into()), "Scheme" => Some(u.scheme().into()), "Username" => Some(u.username().into()), "Password" => u.password().map(Into::into),
        "Host" => u.host_str().map(Into::into), "HostWithoutWWWDotPrefixAndFqdnPeriod" => u.host_str().map(|h| www(h).into()),
        "DomainSegment" => nth(h.domain), "SubdomainSegment" => nth(h.sub), "DomainSuffixSegment" => nth(h.suf),
        "Domain" => h.domain, "Subdomain" => h.sub, "RegDomain" => h.reg, "NotDomainSuffix" => h.notsuf, "DomainMiddle" => h.mid, "DomainSuffix" => h.suf, "FqdnPeriod" => h.dot,
        "Port" => u.port().map(|n| format!("{n}")), "Path" => Some(u.path().into()), "PathSegment" => { let s = psegs(u)?; ridx(int(x), s.len()).map(|k| s[k].clone()) }
        "Query" => u.query().map(Into::into), "Fragment" => u.fragment().map(Into::into),
        "QueryParam" => { let (name, i) = qsel(x); pairs(u).into_iter().filter(|(k, _)| *k == name).nth(i).map(|(_, v)| v) }
        n if n.starts_with("Before") || n.starts_with("After") || n.starts_with("Next") => None,
        n => panic!("part {n}"),
    }
}
/// None = the write is refused
pub fn part_set(p: &V, u: &Url, to: Option<&str>) -> Option<Url> {
    let (n, x) = var(p); let mut v = u.clone();
    if n == "Debug" { return part_set(x, u, to) }
    if hosts::DPARTS.contains(&n) { return hosts::rset(u, n, to) }
    if n.contains("Segment") {
        let (rel, base, i) = if let Some(b) = n.strip_prefix("Before") { (Rel::Before, b, int(x)) } else if let Some(b) = n.strip_prefix("After") { (Rel::After, b, int(x)) } else if let Some(b) = n.strip_prefix("Next") { (Rel::After, b, -1) } else { (Rel::At, n, int(x)) };
        if base == "PathSegment" {
            if n == "NextPathSegment" { if let Some(t) = to { v.path_segments_mut().ok()?.pop_if_empty().push(t); } return Some(v) }
            let s = rseg(&psegs(u)?, i, rel, to)?.join("/"); if s.is_empty() { return None } v.set_path(&s); return Some(v)
        }
        let target = base.strip_suffix("Segment").unwrap(); let h = hosts::parts(u);
        let old = match target { "Domain" => h.domain, "Subdomain" => h.sub, "DomainSuffix" => h.suf, t => panic!("{t}") }?;
        let s = rseg(&split(&old, "."), i, rel, to)?.join(".");
        return hosts::rset(u, target, if s.is_empty() { None } else { Some(&s) })
    }
    match n {
        "Whole" => return Url::parse(to?).ok(), "Scheme" => v.set_scheme(to?).ok()?, "Username" => v.set_username(to?).ok()?, "Password" => v.set_password(to).ok()?,
        "Host" => v.set_host(to).ok()?, "HostWithoutWWWDotPrefixAndFqdnPeriod" => v.set_host(to.map(www)).ok()?,
        "Port" => { let p = match to { None => None, Some(t) => Some(t.parse::<u16>().ok()?) }; v.set_port(p).ok()? }
        "Path" => v.set_path(to?), "Query" => v.set_query(to), "Fragment" => v.set_fragment(to),
        "QueryParam" => { let (name, i) = qsel(x); let mut ps = pairs(u); let at: Vec<usize> = (0..ps.len()).filter(|k| ps[*k].0 == name).collect();
            match (at.get(i), to) { (Some(k), Some(t)) => ps[*k].1 = t.into(), (Some(k), None) => { ps.remove(*k); } (None, Some(t)) => if i == at.len() { ps.push((name, t.into())) } else { return None }, (None, None) => {} }
            put_pairs(&mut v, &ps) }
        n => panic!("part {n}"),
    }
    Some(v)
}
