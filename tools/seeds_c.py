import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
only = set(sys.argv[1:])
def S(id, *a, **k):
    if not only or id in only: mkseed(id, id[:3].upper(), *a, **k)
MP = "src/types/rules/mappers.rs"; SS = "src/types/string_source.rs"; CA = "src/glue/caching.rs"
def C(rules): return {"cache_path": "cache.sqlite", "rules": [{"Mapper": m} for m in rules]}
CU = lambda m, c="c": C([{"CacheUrl": {"category": c, "mapper": m}}])
SP = lambda p, v: {"SetPart": {"part": p, "value": v}}
SRC = lambda v, k="k", c="c": C([SP("Fragment", {"Cache": {"category": c, "key": k, "value": v}})])
U = "https://example.com/"
S("p20-post-key", [(MP, "task_state.cache.write(&category, &old_url, Some(task_state.url.as_str()))?;", "task_state.cache.write(&category, task_state.url.as_str(), Some(task_state.url.as_str()))?;")],
  [(CU({"Join": "/b"}), U + "a", U + "b"), (CU({"Join": "/c"}), U + "a", U + "b"), (CU({"Join": "/c"}), U + "b", U + "c")],
  "the same URL is seen again after its action changed it", "the result is stored under the URL after the action, so it is not found again and another URL's lookup finds it")
S("p20-fragment-key", [(MP, "if let Some(new_url) = task_state.cache.read(&category, task_state.url.as_str())? {", "if let Some(new_url) = task_state.cache.read(&category, task_state.url.as_str().split('#').next().unwrap_or_default())? {"),
  (MP, "let old_url = task_state.url.to_string();", "let old_url = task_state.url.as_str().split('#').next().unwrap_or_default().to_string();")],
  [(CU(SP("Path", {"Part": "Fragment"})), U + "x#1", U + "1#1"), (CU(SP("Path", {"Part": "Fragment"})), U + "x#2", U + "2#2")],
  "two URLs that differ only in the fragment, cached under one category", "the second gets the first one's result")
S("p20-none-source", [(SS, "                if task_state.params.write_cache {\n                    task_state.cache.write(&category, &key, ret.as_deref())?;", "                if task_state.params.write_cache && ret.is_some() {\n                    task_state.cache.write(&category, &key, ret.as_deref())?;")],
  [(SRC({"Var": {"type": "Scratchpad", "name": "none"}}), U + "#f", U), (SRC("x"), U + "#f", U)],
  "a cached source whose value is absent", "the absence is not stored, so the source is evaluated again")
S("p20-store-failed", [(MP, "                mapper.apply(task_state)?;\n                if task_state.params.write_cache {\n                    task_state.cache.write(&category, &old_url, Some(task_state.url.as_str()))?;\n                }", "                let result = mapper.apply(task_state);\n                if task_state.params.write_cache && (result.is_ok() || *task_state.url.as_str() != *old_url) {\n                    task_state.cache.write(&category, &old_url, Some(task_state.url.as_str()))?;\n                }\n                result?;")],
  [(CU({"All": [SP("Path", "p"), {"Error": "e"}]}), U + "a", ""), (CU(SP("Path", "ok")), U + "a", U + "ok")],
  "a cached action that fails after changing the URL", "the half-done result is stored and answered next time")
S("p20-like-key", [(CA, "        Ok(cache::dsl::cache\n            .filter(cache::dsl::category.eq(category))\n            .filter(cache::dsl::key.eq(key))", "        Ok(cache::dsl::cache\n            .filter(cache::dsl::category.eq(category))\n            .filter(cache::dsl::key.like(key))")],
  [(CU({"Join": "/b"}), U + "A", U + "b"), (CU({"Join": "/c"}), U + "a", U + "c"), (CU({"Join": "/d"}), U + "%", U + "d")],
  "keys that differ only in case, or contain % or _", "a read answers with another key's entry")
S("p20-null-rows", [(CA, "            .limit(1)\n            .select", "            .filter(cache::dsl::value.is_not_null())\n            .limit(1)\n            .select")],
  [(SRC({"Var": {"type": "Scratchpad", "name": "none"}}), U + "#f", U), (SRC("x"), U + "#f", U), (SRC("y", "k2"), U + "#f", U + "#y")],
  "an entry without a value", "it reads as not cached")
S("p20-hit-switch", [(MP, "                if task_state.params.read_cache {\n                    if let Some(new_url) = task_state.cache.read(\"redirect\",", "                if task_state.params.read_cache && task_state.params.write_cache {\n                    if let Some(new_url) = task_state.cache.read(\"redirect\",")],
  [(CU({"Join": "http://127.0.0.1:9/b"}, "redirect"), "http://127.0.0.1:9/a", "http://127.0.0.1:9/b"), (C([{"ExpandRedirect": {}}]), "http://127.0.0.1:9/a", "http://127.0.0.1:9/b", ["--write-cache", "false"])],
  "redirect expansion with reading on and writing off", "the stored redirect is ignored and the network is asked")
