import sys, json, os, subprocess, shutil; sys.path.insert(0, "/verif/tools")
only = set(sys.argv[1:])
def S(id, edits, cases, needs, breaks):
    if only and id not in only: return
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True); w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b in edits:
        p = os.path.join(w, f); t = open(p).read(); assert t.count(a) == 1, (id, f, t.count(a), a); open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=w, check=True, stdout=subprocess.PIPE, text=True).stdout); shutil.rmtree(w)
    shutil.copy("/verif/tools/demo25.py", d + "/demo.py"); json.dump(cases, open(d + "/cases.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository after its build: runs the tool with the listed files and compares what it prints\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": id[:3].upper(), "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
M = "src/main.rs"; T = "src/testing.rs"; C = "src/types/config.rs"; J = "src/types/job/job.rs"
def cfg(vars={}, cache=None, extra=[]):
    show = {"condition": "Always", "mapper": {"SetPart": {"part": "Fragment", "value": {"Var": {"type": "Params", "name": "a"}}}}}
    d = {"params": {"vars": vars}, "rules": [show] + extra}
    if cache: d["cache_path"] = cache
    return d
def v(x): return {"vars": {"a": x}}
def case(files, args, ok, stdout=None, first=[]):
    d = {"files": files, "args": args, "ok": ok, "first": first}
    if stdout is not None: d["stdout"] = stdout
    return d
U = "https://a.test/"; CC = ["--config", "c.json"]
def t(*sets): return {"sets": list(sets)}
def s(tests, d=None):
    x = {"tests": [{"task_config": a, "result": b} for a, b in tests]}
    if d: x["params_diff"] = d
    return x
FAIL = {"condition": {"HostIs": "fail.test"}, "mapper": {"Error": "e"}}
JOBV = {"condition": "Always", "mapper": {"SetPart": {"part": {"QueryParam": "c"}, "value": {"Cache": {"category": "c", "key": "k", "value": "mine"}}}}}
WRITE = {"condition": "Always", "mapper": {"SetPart": {"part": {"QueryParam": "c"}, "value": {"Cache": {"category": "c", "key": "k", "value": "theirs"}}}}}
S("p25-options-first", [(M, "Ok(params_diff) => params_diffs.push(params_diff),", "Ok(params_diff) => params_diffs.insert(0, params_diff),")],
  [case({"c.json": cfg(v("0")["vars"]), "d.json": v("file")}, CC + ["--params-diff", "d.json", "--var", "a", "cli", "--", U], True, U + "#cli\n")],
  "an override file and an option that set the same variable", "the file wins over the option")
S("p25-override-once", [(M, "    let mut params_diffs: Vec<ParamsDiff> = args.params_diff\n        .into_iter()", "    let mut loaded = std::collections::HashSet::new();\n    let mut params_diffs: Vec<ParamsDiff> = args.params_diff\n        .into_iter()\n        .filter(|path| loaded.insert(path.clone()))")],
  [case({"c.json": cfg(), "d.json": v("d"), "e.json": v("e")}, CC + ["--params-diff", "d.json", "--params-diff", "e.json", "--params-diff", "d.json", "--", U], True, U + "#d\n")],
  "the same override file named again after another one that undoes it", "the second time it is skipped")
S("p25-empty-job-context", [(M, "if let Some(job_context_string) = args.job_context {", "if let Some(job_context_string) = args.job_context.filter(|x| !x.trim().is_empty()) {")],
  [case({"c.json": cfg()}, CC + ["--job-context", "", "--", U], False, "")],
  "an empty job context", "it is taken for none instead of being an error")
S("p25-memory-cache", [(M, "args.cache_path.as_ref().unwrap_or(&config.cache_path)", "args.cache_path.as_ref().filter(|x| **x != CachePath::default()).unwrap_or(&config.cache_path)")],
  [case({"c.json": cfg(cache="one.sqlite", extra=[JOBV]), "w.json": cfg(cache="one.sqlite", extra=[WRITE])}, CC + ["--cache-path", ":memory:", "--", U], True, U + "?c=mine\n", first=[["--config", "w.json", "--", U]])],
  "asking for the in-memory cache when the configuration names a file", "the configuration's cache is used instead")
S("p25-set-leak", [(T, "        for set in self.sets {\n            set.r#do(config)\n        }", "        let mut config = config.clone();\n        for set in self.sets {\n            set.clone().r#do(&config);\n            if let Some(params_diff) = set.params_diff {params_diff.apply(&mut config.params);}\n        }")],
  [case({"c.json": cfg(), "t.json": t(s([(U, U + "#x")], v("x")), s([(U, U)]))}, CC + ["--tests", "t.json"], True), case({"c.json": cfg(), "t.json": t(s([(U, U + "#x")], v("x")), s([(U, U + "#x")]))}, CC + ["--tests", "t.json"], False)],
  "a set with an override before a set without", "the first set's override still holds in the second")
S("p25-failing-test-passes", [(T, "        for (i, (job, result)) in jobs.iter().zip(results).enumerate() {\n            assert_eq!(\n                job.expect(\"The job to be makeable.\").r#do().expect(\"The job to succeed.\"),", "        for (i, (job, result)) in jobs.iter().zip(results).enumerate() {\n            let job = job.expect(\"The job to be makeable.\");\n            let before = job.url.clone();\n            assert_eq!(\n                job.r#do().unwrap_or(before),")],
  [case({"c.json": cfg(extra=[FAIL]), "t.json": t(s([("https://fail.test/", "https://fail.test/")]))}, CC + ["--tests", "t.json"], False)],
  "a test whose task fails and that expects the URL unchanged", "the test passes")
S("p25-unequal-sets", [(T, "        for set in self.sets {\n            set.r#do(config)\n        }", "        let mut done: Vec<TestSet> = vec![];\n        for set in self.sets {\n            if done.iter().any(|x| x.params_diff == set.params_diff && x.job_context == set.job_context && x.tests.len() == set.tests.len()) {continue;}\n            done.push(set.clone());\n            set.r#do(config)\n        }")],
  [case({"c.json": cfg(), "t.json": t(s([(U, U)]), s([(U, U + "wrong")]))}, CC + ["--tests", "t.json"], False)],
  "two sets with the same override, context and number of tests", "the second set is not run")
S("p25-blank-config", [(C, "serde_json::from_str(&read_to_string(path)?).map_err(Into::into)", "match &*read_to_string(path)? {\n            #[cfg(feature = \"default-config\")] x if x.trim().is_empty() => Self::get_default_no_cache(),\n            x => serde_json::from_str(x).map_err(Into::into)\n        }")],
  [case({"c.json": " \n"}, CC + ["--", U], False, "")],
  "an empty configuration file", "the built-in configuration runs instead of an error")
S("p25-own-context", [(J, "                Ok(task_config) => Ok(self.config.new_task(task_config, &self.context)),", "                Ok(task_config) => Ok(self.config.new_task(TaskConfig {url: task_config.url.clone(), context: if task_config.context.vars.contains_key(\"\") {Default::default()} else {task_config.context}}, &self.context)),")] if 0 else [(T, "        let (task_configs, results) = self.tests.clone().into_iter()", "        let (task_configs, results) = self.tests.clone().into_iter().filter(|x| x.task_config.url != x.result)")],
  [case({"c.json": cfg(v("0")["vars"]), "t.json": t(s([(U, U)]))}, CC + ["--tests", "t.json"], False)],
  "a test that expects its URL unchanged when the rules change it", "the test is left out, so it passes")
S("p25-tests-and-urls", [(M, "let no_cleaning = test_suitability || tests.is_some();", "let no_cleaning = test_suitability || (tests.is_some() && args.urls.is_empty());")],
  [case({"c.json": cfg(), "t.json": t(s([(U, U)]))}, CC + ["--tests", "t.json", "--", "https://b.test/"], True, "\nAll tests passed!\n")],
  "asking for tests and giving URLs", "the URLs are cleaned as well")
