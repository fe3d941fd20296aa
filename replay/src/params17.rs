//! P17: parameter overrides against an independent calculation over plain ordered maps.
use crate::{Cx, Rng, same};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use url_cleaner::types::*;
use url_cleaner::glue::*;
type Ss = BTreeSet<String>;
type Mm = BTreeMap<String, String>;
#[derive(Debug, Clone, PartialEq, Default)]
struct M { map: Mm, if_null: Option<String>, els: Option<String> }
#[derive(Debug, Clone, PartialEq, Default)]
struct H { redirect: Option<usize>, headers: BTreeMap<String, Vec<String>>, https: bool, proxies: Vec<String>, no_proxy: bool, referer: bool, certs: Ss }
#[derive(Debug, Clone, PartialEq, Default)]
struct P { flags: Ss, vars: Mm, sets: BTreeMap<String, Ss>, lists: BTreeMap<String, Vec<String>>, maps: BTreeMap<String, M>, parts: BTreeMap<String, BTreeMap<String, Ss>>, rc: bool, wc: bool, http: H }
fn n(r: &mut Rng) -> String { r.pick(&["a", "b", "c", "dé", ""]).to_string() }
fn x(r: &mut Rng) -> String { r.pick(&["x", "y", "z", "w w", "é", "a", ""]).to_string() }
fn names(r: &mut Rng, max: usize) -> Vec<String> { (0..r.below(max + 1)).map(|_| n(r)).collect() }
fn vals(r: &mut Rng, max: usize) -> Vec<String> { (0..r.below(max + 1)).map(|_| x(r)).collect() }
fn mm(r: &mut Rng, max: usize) -> Mm { (0..r.below(max + 1)).map(|_| (n(r), x(r))).collect() }
fn hdr(r: &mut Rng) -> BTreeMap<String, Vec<String>> { (0..r.below(3)).map(|_| (r.pick(&["x-a", "x-b", "user-agent"]).to_string(), vec![r.pick(&["1", "2", "3"]).to_string()])).collect() }
fn prox(r: &mut Rng, max: usize) -> Vec<String> { (0..r.below(max + 1)).map(|_| r.pick(&["http://p1/", "http://p2/", "socks5://p3"]).to_string()).collect() }
fn headermap(h: &BTreeMap<String, Vec<String>>) -> Headers { h.iter().map(|(k, v)| (k.clone(), json!(v[0]))).collect() }
type Headers = serde_json::Map<String, Value>;
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> { if r.chance(1, 2) { Some(f(r)) } else { None } }
fn b(r: &mut Rng) -> bool { r.chance(1, 2) }
fn http(r: &mut Rng) -> H { H { redirect: Some(r.below(12)).filter(|x| *x > 0), headers: hdr(r), https: b(r), proxies: prox(r, 2), no_proxy: b(r), referer: b(r), certs: vals(r, 3).into_iter().collect() } }
fn start(r: &mut Rng) -> P {
    P { flags: names(r, 3).into_iter().collect(), vars: mm(r, 3), sets: names(r, 3).into_iter().map(|k| (k, vals(r, 3).into_iter().collect())).collect(), lists: names(r, 2).into_iter().map(|k| (k, vals(r, 3))).collect(),
        maps: names(r, 3).into_iter().map(|k| (k, M { map: mm(r, 3), if_null: opt(r, x), els: opt(r, x) })).collect(),
        parts: names(r, 2).into_iter().map(|k| (k, BTreeMap::from([("p".to_string(), Ss::from(["1".to_string()])), ("q".to_string(), Ss::from(["2".to_string()]))]))).collect(), rc: b(r), wc: b(r), http: http(r) }
}
fn policy(p: &Option<usize>) -> Value { match p { Some(n) => json!({"Limited": n}), None => json!("None") } }
fn real_http(h: &H) -> Value { json!({"default_headers": headermap(&h.headers), "redirect_policy": policy(&h.redirect), "https_only": h.https, "proxies": h.proxies, "no_proxy": h.no_proxy, "referer": h.referer, "extra_certificates": h.certs}) }
fn obs_http(c: &HttpClientConfig) -> H {
    let mut headers = BTreeMap::<String, Vec<String>>::new();
    for (k, v) in c.default_headers.iter() { headers.entry(k.as_str().to_string()).or_default().push(v.to_str().unwrap().to_string()); }
    H { redirect: match c.redirect_policy { RedirectPolicy::Limited(n) => Some(n), RedirectPolicy::None => None }, headers, https: c.https_only, proxies: c.proxies.iter().map(|p| p.url.as_str().to_string()).collect(), no_proxy: c.no_proxy, referer: c.referer, certs: c.extra_certificates.iter().cloned().collect() }
}
fn real(p: &P) -> Params {
    let maps: BTreeMap<_, Value> = p.maps.iter().map(|(k, m)| (k.clone(), json!({"map": m.map, "if_null": m.if_null, "else": m.els}))).collect();
    crate::de1(&json!({"flags": p.flags, "vars": p.vars, "sets": p.sets, "lists": p.lists, "maps": maps, "named_partitionings": p.parts, "read_cache": p.rc, "write_cache": p.wc, "http_client_config": real_http(&p.http)}))
}
fn obs(p: &Params) -> P {
    P { flags: p.flags.iter().cloned().collect(), vars: p.vars.clone().into_iter().collect(), sets: p.sets.iter().map(|(k, v)| (k.clone(), v.iter().cloned().collect())).collect(), lists: p.lists.clone().into_iter().collect(),
        maps: p.maps.iter().map(|(k, m)| (k.clone(), M { map: m.map.clone().into_iter().collect(), if_null: m.if_null.as_deref().cloned(), els: m.r#else.as_deref().cloned() })).collect(),
        parts: p.named_partitionings.iter().map(|(k, q)| (k.clone(), q.partition_names().iter().map(|m| (m.to_string(), ["1", "2"].iter().filter(|e| q.get_partition(e) == Some(&**m)).map(|e| e.to_string()).collect())).collect())).collect(),
        rc: p.read_cache, wc: p.write_cache, http: obs_http(&p.http_client_config) }
}
#[derive(Debug, Clone, Default)]
struct Hd { redirect: Option<Option<usize>>, headers: BTreeMap<String, Vec<String>>, https: Option<bool>, set: Option<Vec<String>>, add: Vec<String>, no_proxy: Option<bool>, referer: Option<bool>, addc: Ss, remc: Ss }
#[derive(Debug, Clone, Default)]
struct D { flags: Ss, unflags: Ss, vars: Mm, unvars: Ss, init_sets: Vec<String>, ins: BTreeMap<String, Vec<String>>, rem: BTreeMap<String, Vec<String>>, del: Vec<String>, init_maps: Vec<String>, diffs: BTreeMap<String, (Mm, Ss)>, delm: Vec<String>, rc: Option<bool>, wc: Option<bool>, http: Option<Hd> }
fn hdiff(r: &mut Rng) -> Hd { Hd { redirect: opt(r, |r| Some(r.below(5)).filter(|x| *x > 0)), headers: hdr(r), https: opt(r, b), set: opt(r, |r| prox(r, 2)), add: prox(r, 2), no_proxy: opt(r, b), referer: opt(r, b), addc: vals(r, 2).into_iter().collect(), remc: vals(r, 2).into_iter().collect() } }
fn diff(r: &mut Rng) -> D {
    D { flags: names(r, 3).into_iter().collect(), unflags: names(r, 2).into_iter().collect(), vars: mm(r, 3), unvars: names(r, 2).into_iter().collect(), init_sets: names(r, 2), ins: names(r, 3).into_iter().map(|k| (k, vals(r, 3))).collect(), rem: names(r, 3).into_iter().map(|k| (k, vals(r, 3))).collect(), del: names(r, 1),
        init_maps: names(r, 2), diffs: names(r, 3).into_iter().map(|k| (k, (mm(r, 3), names(r, 2).into_iter().collect()))).collect(), delm: names(r, 1), rc: opt(r, b), wc: opt(r, b), http: opt(r, hdiff) }
}
fn real_hd(d: &Hd) -> Value {
    let mut o = json!({"add_default_headers": headermap(&d.headers), "add_proxies": d.add, "add_extra_certificates": d.addc, "remove_extra_certificates": d.remc});
    if let Some(p) = &d.redirect { o["redirect_policy"] = policy(p); }
    if let Some(x) = d.https { o["https_only"] = json!(x); }
    if let Some(x) = &d.set { o["set_proxies"] = json!(x); }
    if let Some(x) = d.no_proxy { o["no_proxy"] = json!(x); }
    if let Some(x) = d.referer { o["referer"] = json!(x); }
    o
}
fn real_d(d: &D) -> ParamsDiff {
    let md: BTreeMap<_, Value> = d.diffs.iter().map(|(k, (i, m))| (k.clone(), json!({"insert_into_map": i, "remove_from_map": m}))).collect();
    let mut o = json!({"flags": d.flags, "unflags": d.unflags, "vars": d.vars, "unvars": d.unvars, "init_sets": d.init_sets, "insert_into_sets": d.ins, "remove_from_sets": d.rem, "delete_sets": d.del, "init_maps": d.init_maps, "map_diffs": md, "delete_maps": d.delm});
    if let Some(x) = d.rc { o["read_cache"] = json!(x); }
    if let Some(x) = d.wc { o["write_cache"] = json!(x); }
    if let Some(h) = &d.http { o["http_client_config_diff"] = real_hd(h); }
    crate::de1(&o)
}
fn model_h(mut h: H, d: &Hd) -> H {
    if let Some(x) = &d.redirect { h.redirect = *x }
    for (k, v) in &d.headers { h.headers.insert(k.clone(), v.clone()); }
    if let Some(x) = d.https { h.https = x } if let Some(x) = &d.set { h.proxies = x.clone() } h.proxies.extend(d.add.iter().cloned());
    if let Some(x) = d.no_proxy { h.no_proxy = x } if let Some(x) = d.referer { h.referer = x }
    h.certs = h.certs.union(&d.addc).filter(|c| !d.remc.contains(*c)).cloned().collect(); h
}
fn model(mut p: P, d: &D) -> P {
    p.flags = p.flags.union(&d.flags).filter(|f| !d.unflags.contains(*f)).cloned().collect();
    for (k, v) in &d.vars { p.vars.insert(k.clone(), v.clone()); }
    p.vars.retain(|k, _| !d.unvars.contains(k));
    let mut all: Ss = p.sets.keys().cloned().collect(); all.extend(d.init_sets.iter().cloned()); all.extend(d.ins.keys().cloned());
    p.sets = all.into_iter().filter(|k| !d.del.contains(k)).map(|k| { let mut s = p.sets.get(&k).cloned().unwrap_or_default(); s.extend(d.ins.get(&k).into_iter().flatten().cloned()); for g in d.rem.get(&k).into_iter().flatten() { s.remove(g); } (k, s) }).collect();
    let mut all: Ss = p.maps.keys().cloned().collect(); all.extend(d.init_maps.iter().cloned()); all.extend(d.diffs.keys().cloned());
    p.maps = all.into_iter().filter(|k| !d.delm.contains(k)).map(|k| { let mut m = p.maps.get(&k).cloned().unwrap_or_default(); if let Some((i, g)) = d.diffs.get(&k) { m.map.extend(i.clone()); m.map.retain(|k, _| !g.contains(k)); } (k, m) }).collect();
    if let Some(x) = d.rc { p.rc = x } if let Some(x) = d.wc { p.wc = x }
    if let Some(h) = &d.http { p.http = model_h(p.http, h); } p
}
/// one command line: the options in the order given, and what they mean
fn argv(r: &mut Rng) -> (Vec<String>, Result<D, ()>, bool) {
    let mut a = vec!["prog".to_string()]; let mut d = D::default(); let mut bad = false; let mut any = false; let mut hd = Hd::default(); let mut inserts: Vec<(String, Mm)> = vec![]; let mut once = BTreeSet::new();
    let nz = |r: &mut Rng| r.pick(&["a", "b", "c", "dé"]).to_string();
    for _ in 0..r.below(6) {
        let k = r.below(12); if k >= 8 && !once.insert(k) { continue } any = true;
        match k {
            0 => { let v = nz(r); a.extend([r.pick(&["--flag", "-f"]).to_string(), v.clone()]); d.flags.insert(v); }
            1 => { let v = nz(r); a.extend([r.pick(&["--unflag", "-F"]).to_string(), v.clone()]); d.unflags.insert(v); }
            2 => { let (v, w) = (nz(r), x(r)); a.extend([r.pick(&["--var", "-v"]).to_string(), v.clone(), w.clone()]); d.vars.insert(v, w); }
            3 => { let v = nz(r); a.extend([r.pick(&["--unvar", "-V"]).to_string(), v.clone()]); d.unvars.insert(v); }
            4 => { let v = nz(r); let l = vals(r, 3); a.extend(["--insert-into-set".to_string(), v.clone()]); a.extend(l.clone()); d.ins.entry(v).or_default().extend(l); }
            5 => { let v = nz(r); let l = vals(r, 3); a.extend(["--remove-from-set".to_string(), v.clone()]); a.extend(l.clone()); d.rem.entry(v).or_default().extend(l); }
            6 => { let v = nz(r); let l: Vec<String> = (0..2 + r.below(4)).map(|_| x(r)).collect(); a.extend(["--insert-into-map".to_string(), v.clone()]); a.extend(l.clone()); if l.len() % 2 == 1 { bad = true } else { inserts.push((v, Mm::new())); for c in l.chunks(2) { let m = &mut inserts.last_mut().unwrap().1; m.insert(c[0].clone(), c[1].clone()); } } }
            7 => { let v = nz(r); let l = vals(r, 3); a.extend(["--remove-from-map".to_string(), v.clone()]); a.extend(l.clone()); d.diffs.entry(v).or_default().1.extend(l); }
            8 => { let v = b(r); a.push("--read-cache".into()); if v && b(r) {} else { a.push(v.to_string()); } d.rc = Some(v); }
            9 => { let v = b(r); a.push("--write-cache".into()); if v && b(r) {} else { a.push(v.to_string()); } d.wc = Some(v); }
            10 => { let v = r.pick(&["http://p1/", "http://p2/"]).to_string(); a.extend(["--proxy".into(), v.clone()]); hd.set = Some(vec![v]); }
            _ => { let v = b(r); a.push("--no-proxy".into()); if v && b(r) {} else { a.push(v.to_string()); } hd.no_proxy = Some(v); }
        }
    }
    for (k, m) in inserts { d.diffs.entry(k).or_default().0.extend(m); }
    d.http = Some(hd);
    (a, if bad { Err(()) } else { Ok(d) }, any)
}
fn parse(a: &[String]) -> Result<ParamsDiffArgParser, String> {
    use clap::{Args, FromArgMatches};
    let c = ParamsDiffArgParser::augment_args(clap::Command::new("prog"));
    let m = c.try_get_matches_from(a).map_err(|e| e.to_string())?;
    ParamsDiffArgParser::from_arg_matches(&m).map_err(|e| e.to_string())
}
pub fn p17(cx: &mut Cx) {
    cx.rule = "random parameters and overrides over a small pool of names, every field of an override independently present or absent; command lines with repeated options, parsed by the crate's own clap parser; HTTP client overrides; the result is compared with an independent calculation".into();
    for _ in 0..1200 * cx.scale {
        let p = start(&mut cx.rng); let d = diff(&mut cx.rng);
        cx.case("apply", format!("{d:?} to {p:?}"), || { let mut q = real(&p); real_d(&d).apply(&mut q); same(model(p.clone(), &d), obs(&q)) });
    }
    for _ in 0..600 * cx.scale {
        let h = http(&mut cx.rng); let d = hdiff(&mut cx.rng);
        cx.case("http", format!("{d:?} to {h:?}"), || { let mut q: HttpClientConfig = crate::de1(&real_http(&h)); let e: HttpClientConfigDiff = crate::de1(&real_hd(&d)); e.apply(&mut q); same(model_h(h.clone(), &d), obs_http(&q)) });
    }
    for _ in 0..1500 * cx.scale {
        let p = start(&mut cx.rng); let (a, d, any) = argv(&mut cx.rng);
        cx.case("args", format!("{a:?} on {p:?}"), || {
            let c = match parse(&a) { Ok(c) => c, Err(e) => return Err(("the options are accepted".into(), e)) };
            if c.does_anything() != any { return Err((format!("does_anything {any}"), format!("{}", c.does_anything()))) }
            match (d, c.build()) { (Err(()), Err(_)) => Ok(()), (Ok(d), Ok(e)) => { let mut q = real(&p); e.apply(&mut q); same(model(p.clone(), &d), obs(&q)) } (d, e) => Err((format!("{d:?}"), format!("{e:?}"))) }
        });
    }
    // invocations the command line parser would not let through
    for _ in 0..300 * cx.scale {
        let mut c = parse(&["prog".to_string()]).unwrap(); let r = &mut cx.rng; let k = r.below(5); let l = r.below(4); let v: Vec<String> = (0..l).map(|_| x(r)).collect();
        let bad = match k { 0 => { c.var.push(v); l != 2 } 1 => { c.insert_into_set.push(v); l == 0 } 2 => { c.remove_from_set.push(v); l == 0 } 3 => { c.insert_into_map.push(v); l % 2 == 0 } _ => { c.remove_from_map.push(v); l == 0 } };
        cx.case("malformed", format!("{c:?}"), || { let r = c.build(); same(bad, r.is_err()) });
    }
}
