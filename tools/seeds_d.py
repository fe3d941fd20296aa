import sys, json, os, subprocess, shutil; sys.path.insert(0, "/verif/tools")
only = set(sys.argv[1:])
def S(id, edits, cases, needs, breaks):
    if only and id not in only: return
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True); w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b in edits:
        p = os.path.join(w, f); t = open(p).read(); assert t.count(a) == 1, (id, f, t.count(a), a); open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=w, check=True, stdout=subprocess.PIPE, text=True).stdout); shutil.rmtree(w)
    shutil.copy("/verif/tools/demo22.py", d + "/demo.py"); json.dump(cases, open(d + "/cases.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository after its build; starts loopback servers and compares what they are asked and what is printed\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": id[:3].upper(), "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
HT = "src/glue/http.rs"; HC = "src/glue/http_client_config.rs"; PX = "src/glue/proxy.rs"; JS = "src/glue/json.rs"; CO = "src/glue/command.rs"; TS = "src/types/job/task_state.rs"
NONE = {"Var": {"type": "Scratchpad", "name": "none"}}
def R(q, params=None):
    c = {"cache_path": ":memory:", "rules": [{"Mapper": {"SetPart": {"part": "Fragment", "value": {"HttpRequest": q}}}}]}
    if params: c["params"] = {"http_client_config": params}
    return c
def case(q, asked=None, out=None, params=None, url="$S/p"):
    c = {"config": R(q, params), "urls": [url]}
    if asked is not None: c["asked"] = asked
    if out is not None: c["stdout"] = out
    return c
S("p22-absent-header", [(HT, "            if let Some(value) = value.get(job_state)? {\n                ret = ret.header(HeaderName::try_from(name)?, HeaderValue::try_from(value.into_owned())?);\n            }", "            let value = value.get(job_state)?.unwrap_or_default();\n            ret = ret.header(HeaderName::try_from(name)?, HeaderValue::try_from(value.into_owned())?);")],
  [case({"headers": {"x-a": NONE, "x-b": ""}, "response_handler": {"Header": "x-one"}}, ["GET /p x-b=|"], ["$S/p#1"])], "a header whose text is absent", "the header is sent empty instead of being left out")
S("p22-last-cookie", [(HT, "response.cookies().find(|cookie| cookie.name()==name)", "response.cookies().filter(|cookie| cookie.name()==name).last()")],
  [case({"response_handler": {"Cookie": "k"}}, None, ["$S/p#1"]), case({"response_handler": {"Cookie": "K"}}, None, ["$S/p#2"])], "an answer that sets a cookie twice", "the last value is taken instead of the first")
S("p22-first-hop-url", [(HT, "Self::Url => response.url().as_str().to_string(),", "Self::Url => job_state.url.as_str().to_string(),")],
  [case({"response_handler": "Url"}, None, ["$S/r#$S/end?x=1".replace("$S/end", "$S/end")], None, "$S/r")], "a request that is redirected", "the task's URL is reported instead of the one reached")
S("p22-no-proxy-first", [(HC, "        for proxy in &self.proxies {", "        if self.no_proxy {temp = temp.no_proxy();}\n        for proxy in &self.proxies {"), (HC, "        if self.no_proxy {temp = temp.no_proxy();}\n        temp.build()", "        temp.build()")],
  [case({"response_handler": {"Header": "x-one"}}, ["GET /p |"], ["$S/p#1"], {"proxies": ["$P"], "no_proxy": True})], "proxies together with 'no proxy'", "the proxies are used although they are switched off")
S("p22-proxy-auth", [(PX, "            ProxyMode::Http  => Proxy::http (value.url),", "            ProxyMode::Http  => return Proxy::http(value.url),")],
  [case({"response_handler": {"Header": "x-one"}}, ["GET $S/p proxy-authorization=Basic dTpw|"], ["$S/p#1"], {"proxies": [{"url": "$P", "mode": "Http", "auth": {"Basic": {"username": "u", "password": "p"}}}]})], "an http-only proxy with credentials", "the credentials are not sent")
S("p22-form-empty", [(HT, "                    if let Some(v) = v.get(job_state)? {\n                        ret.insert(k, v);", "                    if let Some(v) = v.get(job_state)?.filter(|v| !v.is_empty()) {\n                        ret.insert(k, v);")],
  [case({"method": "POST", "body": {"Form": {"a": "", "b": NONE}}, "response_handler": {"Header": "x-one"}}, ["POST /p content-type=application/x-www-form-urlencoded|a="], ["$S/p#1"])], "a form field whose text is empty", "the field is left out")
S("p22-json-null", [(JS, "            Self::String(x) => Value::String(get_string!(x, job_state, StringSourceError)),", "            Self::String(x) => x.get(job_state)?.map_or(Value::Null, |x| Value::String(x.into_owned())),")],
  [case({"method": "POST", "body": {"Json": {"Object": {"a": {"String": NONE}}}}}, [], [""])], "a JSON text that is absent", "null is sent instead of reporting the error")
S("p22-diff-skipped", [(TS, "if let Some(diff) = http_client_config_diff {", "if let Some(diff) = http_client_config_diff.filter(|diff| diff.redirect_policy.is_some() || diff.set_proxies.is_some() || !diff.add_default_headers.is_empty() || diff.https_only.is_some() || diff.referer.is_some() || diff.no_proxy.is_some()) {")],
  [case({"client_config_diff": {"add_proxies": ["$P"]}, "response_handler": {"Header": "x-one"}}, ["GET $S/p |"], ["$S/p#1"])], "an override that only adds proxies or certificates", "the override is ignored")
def cmd(c, out, url="https://e.com/"): return {"config": {"cache_path": ":memory:", "rules": [{"Mapper": {"SetPart": {"part": "Fragment", "value": {"CommandOutput": c}}}}]}, "urls": [url], "stdout": out}
S("p22-env-error", [(CO, "            if let Some(v) = v.get(job_state)? {", "            if let Ok(Some(v)) = v.get(job_state) {")],
  [cmd({"program": "sh", "args": ["-c", "printf x"], "envs": {"A": {"Error": "e"}}}, [""]), cmd({"program": "sh", "args": ["-c", "printf x"], "envs": {"A": NONE}}, ["https://e.com/#x"])], "an environment variable whose text fails", "the command runs without it")
S("p22-empty-arg", [(CO, "        Ok(from_utf8(&output.stdout)?.to_string())", "        Ok(String::from_utf8_lossy(&output.stdout).into_owned())")] if 0 else [(CO, "            ret.arg(OsString::from(get_string!(arg, job_state, CommandError)));", "            let arg = get_string!(arg, job_state, CommandError);\n            if !arg.is_empty() {ret.arg(OsString::from(arg));}")],
  [cmd({"program": "sh", "args": ["-c", 'printf "%s" $#', "sh", "a", "", "b"]}, ["https://e.com/#3"])], "an empty argument", "the argument is dropped, so later ones move up")
