//! P18: lookup tables.
use crate::{Cx, same};
use std::collections::{BTreeMap, HashMap};
use url_cleaner::types::*;
const N: &[&str] = &["a", "b", "c", "d", "é", "", "A", "ab"];
pub fn p18(cx: &mut Cx) {
    cx.rule = "random maps with and without both fall-back entries looked up with present, absent and missing keys; random partitionings with and without repeated names and shared elements, each looked up with every pool word; compared with linear searches over the declarations".into();
    for _ in 0..3000 * cx.scale {
        let r = &mut cx.rng; let e: BTreeMap<String, u64> = (0..r.below(6)).map(|_| (r.pick(N).to_string(), r.next() % 100)).collect();
        let null = if r.chance(1, 2) { Some(1000) } else { None }; let els = if r.chance(1, 2) { Some(2000) } else { None };
        let k: Option<&str> = if r.chance(1, 4) { None } else { Some(r.pick(N)) };
        cx.case("map", format!("{e:?} if_null {null:?} else {els:?} looked up with {k:?}"), || {
            let m: Map<u64> = Map { map: e.iter().map(|(k, v)| (k.clone(), *v)).collect::<HashMap<_, _>>(), if_null: null.map(Box::new), r#else: els.map(Box::new) };
            let own = match k { Some(k) => e.iter().find(|(x, _)| x.as_str() == k).map(|(_, v)| *v), None => null };
            same(own.or(els), m.get(k).copied())
        });
    }
    for _ in 0..3000 * cx.scale {
        let r = &mut cx.rng; let distinct = r.chance(2, 3); let mut pool: Vec<String> = N.iter().map(|x| x.to_string()).collect(); let mut names: Vec<String> = N.iter().map(|x| x.to_string()).collect();
        let decl: Vec<(String, Vec<String>)> = (0..r.below(5)).map(|_| { let name = if distinct || r.chance(3, 4) { let i = r.below(names.len()); names.swap_remove(i) } else { r.pick(N).to_string() };
            let vs = (0..r.below(4)).filter_map(|_| if distinct || r.chance(5, 6) { if pool.is_empty() { None } else { let i = r.below(pool.len()); Some(pool.swap_remove(i)) } } else { Some(r.pick(N).to_string()) }).collect(); (name, vs) }).collect();
        let by_json = r.chance(1, 2);
        cx.case("partition", format!("{decl:?}{}", if by_json { " read from a config" } else { "" }), || {
            let mut seen = vec![]; let mut sn = vec![]; let mut ok = true;
            for (k, vs) in &decl { if sn.contains(k) { ok = false } sn.push(k.clone()); for v in vs { if seen.contains(v) { ok = false } seen.push(v.clone()); } }
            let got: Option<NamedPartitioning> = if by_json { let t = format!("{{{}}}", decl.iter().map(|(k, v)| format!("{}: {}", serde_json::json!(k), serde_json::json!(v))).collect::<Vec<_>>().join(", ")); serde_json::from_str(&t).ok() } else { NamedPartitioning::try_from_iter(decl.clone()).ok() };
            if got.is_some() != ok { return Err((format!("accepted: {ok}"), format!("accepted: {}", got.is_some()))) }
            let Some(p) = got else { return Ok(()) };
            let want: Vec<Option<String>> = N.iter().map(|e| decl.iter().find(|(_, vs)| vs.iter().any(|v| v == e)).map(|(k, _)| k.clone())).collect();
            same((want, sn), (N.iter().map(|e| p.get_partition(e).map(|x| x.to_string())).collect(), p.partition_names().iter().map(|x| x.to_string()).collect()))
        });
    }
}
