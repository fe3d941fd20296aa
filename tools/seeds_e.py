import sys, json, os, subprocess, shutil; sys.path.insert(0, "/verif/tools")
only = set(sys.argv[1:])
def S(id, edits, cases, needs, breaks):
    if only and id not in only: return
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True); w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b in edits:
        p = os.path.join(w, f); t = open(p).read(); assert t.count(a) == 1, (id, f, t.count(a), a); open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=w, check=True, stdout=subprocess.PIPE, text=True).stdout); shutil.rmtree(w)
    shutil.copy("/verif/tools/demo21.py", d + "/demo.py"); json.dump(cases, open(d + "/cases.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository after its build: feeds the tool lists of lines and compares what it prints\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": id[:3].upper(), "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
M = "src/main.rs"; TC = "src/types/job/task_config.rs"
ID = {"cache_path": ":memory:", "rules": []}
FAIL = {"cache_path": ":memory:", "rules": [{"condition": {"HostIs": "fail.com"}, "mapper": {"Error": "e"}}]}
def L(n, h="a.com"): return "".join("https://%s/%d\n" % (h, i) for i in range(n))
def c(cfg, stdin, out, code=None, args=[], urls=[], js=None):
    d = {"config": cfg, "stdin": stdin, "stdout": out, "args": args, "urls": urls}
    if code is not None: d["code"] = code
    if js is not None: d["json"] = js
    return d
S("p21-bad-line-end", [(M, "in_sender.send(task_config_string).expect(\"The in reciever to still exist.\");", "let failed = task_config_string.is_err();\n                in_sender.send(task_config_string).expect(\"The in reciever to still exist.\");\n                if failed {break;}")],
  [c(ID, "https://a.com/1\nhttps://a.com/\xff\nhttps://a.com/2\n", "https://a.com/1\n\nhttps://a.com/2\n", 2)], "a line of standard input that is not UTF-8, followed by others", "every later line is dropped")
S("p21-skip-unreadable", [(M, "Err(e) => Err(MakeTaskError::MakeTaskConfigError(MakeTaskConfigError::IoError(e)))", "Err(_) => continue")],
  [c(ID, "https://a.com/1\nhttps://a.com/\xff\nhttps://a.com/2\nhttps://a.com/3\n", "https://a.com/1\n\nhttps://a.com/2\nhttps://a.com/3\n", 2, ["--threads", "2"])], "a line that is not UTF-8", "the line has no result, so later results move up or out of order")
S("p21-json-comma", [(M, "print!(\"{{\\\"Ok\\\":{{\\\"Ok\\\":{}}}}}\", str_to_json_str(url.as_str()));\n                                *some_ok_ref_lock = true;", "print!(\"{{\\\"Ok\\\":{{\\\"Ok\\\":{}}}}}\", str_to_json_str(url.as_str()));\n                                *some_ok_ref_lock = true;\n                                first_job = false;"), (M, "                            Err(_) => break\n                        }\n                        first_job = false;", "                            Err(_) => break\n                        }")],
  [c(FAIL, "https://a.com\nhttps://b.com\n", "", 0, ["--json"], js=["ok", "ok"]), c(FAIL, "https://fail.com\nhttps://b.com\nx\n", "", 2, ["--json"], js=["err", "ok", "err"])], "JSON output whose first item is an error and is followed by another", "the comma between them is missing")
S("p21-line-error-flag", [(M, "                                println!();\n                                eprintln!(\"MakeTaskError\\t{e:?}\");\n                                *some_err_ref_lock = true;", "                                println!();\n                                eprintln!(\"MakeTaskError\\t{e:?}\");")],
  [c(ID, "nope\nhttps://a.com/\n", "\nhttps://a.com/\n", 2)], "plain output and a malformed line", "the exit code says that nothing failed")
S("p21-error-variant", [(M, "                        Ok(task_config_string) => match TaskConfig::from_str(&task_config_string) {", "                        Ok(task_config_string) if task_config_string.is_empty() => continue,\n                        Ok(task_config_string) => match TaskConfig::from_str(&task_config_string) {")],
  [c(ID, "https://a.com/1\n\nhttps://a.com/2\nhttps://a.com/3\n", "https://a.com/1\n\nhttps://a.com/2\nhttps://a.com/3\n", 2, ["--threads", "2"])], "a blank line among others", "it has no output line and later results change places")
S("p21-impatient", [(M, "                    for or in out_recievers.iter().cycle() {\n                        match or.recv() {\n                            Ok(Ok(Ok(url))) => {\n                                println!", "                    for or in out_recievers.iter().cycle() {\n                        match or.recv_timeout(std::time::Duration::from_secs(2)) {\n                            Ok(Ok(Ok(url))) => {\n                                println!")],
  [{"config": {"cache_path": ":memory:", "rules": [{"condition": {"HostIs": "slow.com"}, "mapper": {"SetScratchpadVar": {"name": "x", "value": {"CommandOutput": {"program": "sleep", "args": ["4"]}}}}}]}, "stdin": "https://a.com/1\nhttps://slow.com/\nhttps://a.com/2\n", "stdout": "https://a.com/1\nhttps://slow.com/\nhttps://a.com/2\n", "code": 0, "args": ["--threads", "2"]}], "a task that takes more than two seconds", "its result and all later ones are missing")
S("p21-string-context", [(TC, "serde_json::from_str(s)?", "serde_json::from_str(s.trim_end_matches('}')).or_else(|_| serde_json::from_str(s))?")] if 0 else [(TC, "s.starts_with(['{', '\"'])", "s.starts_with('{')")],
  [c(ID, "\"https://a.com/\"\n{\"url\":\"https://a.com/\"}\n", "https://a.com/\nhttps://a.com/\n", 0)], "a line that is a JSON string", "the line is rejected")
S("p21-few-threads", [(M, "for (in_sender, task_config_string) in in_senders.iter().cycle().zip(task_config_strings_source) {", "let args_given = task_config_strings_source.size_hint().0;\n            for (in_sender, task_config_string) in in_senders.iter().take(if args_given == 0 {usize::MAX} else {args_given}).cycle().zip(task_config_strings_source) {")],
  [c(ID, L(6), "https://b.com/\n" + L(6), 0, ["--threads", "3"], ["https://b.com/"])], "argument URLs fewer than threads, and lines on standard input", "lines are dealt to fewer workers than the printer asks, so results are lost")
