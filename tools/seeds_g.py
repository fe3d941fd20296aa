import sys, os; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
only = set(sys.argv[1:])
def S(id, edits, cases, needs, breaks):
    if only and id not in only: return
    mkseed(id, id[:3].upper(), edits, cases, needs, breaks)
def L(id, edits, main, needs, breaks):
    """demonstration through the library and its serde_json"""
    if only and id not in only: return
    mkseed(id, id[:3].upper(), edits, [], needs, breaks, {"demo.rs": main}); d = "/verif/seeded/" + id
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in the repository after its build: a small program against the library just built (and the serde_json it was built with)
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for j in target/debug/deps/libserde_json-*.rlib; do
  rustc -A warnings --edition 2024 "$D/demo.rs" -o "$T/demo" --extern url_cleaner=target/debug/liburl_cleaner.rlib --extern serde_json="$j" -L dependency=target/debug/deps 2> "$T/err" && break
done
[ -x "$T/demo" ] || { cat "$T/err"; exit 9; }
cd "$T" && timeout 60 ./demo
'''); os.chmod(d + "/demo.sh", 0o755)
RT = '''use url_cleaner::types::*; use url_cleaner::glue::*; use serde_json::{from_str, to_string};
macro_rules! back { ($t:ty, $s:expr) => {{ let a: $t = from_str($s).unwrap(); let w = to_string(&a).unwrap(); let b: $t = from_str(&w).unwrap_or_else(|e| panic!("{w}: {e}")); assert_eq!(a, b, "{w}"); a }} }
'''
def frag(v): return [{"Mapper": {"SetPart": {"part": "Fragment", "value": v}}}]
PA = "src/types/config/params.rs"; RP = "src/glue/regex/regex_parts.rs"; NP = "src/types/named_partitioning.rs"; JS = "src/glue/json.rs"; GL = "src/glue.rs"; SM = "src/types/string_modification.rs"; FL = "src/types/flag_var_thing/flag.rs"; UP = "src/types/url_part.rs"; SS = "src/types/string_source.rs"; MA = "src/types/map.rs"; RU = "src/types/rules.rs"; HC = "src/glue/http_client_config.rs"; CC = "src/glue/caching.rs"; B6 = "src/glue/base64.rs"
L("p24-read-cache-false", [(PA, '    #[serde(default = "get_true", skip_serializing_if = "is_true")]\n    pub read_cache: bool,', '    #[serde(default = "get_true", skip_serializing_if = "is_default")]\n    pub read_cache: bool,')],
  RT + 'fn main() { for r in [true, false] { for w in [true, false] { back!(Params, &format!("{{\\"read_cache\\":{r},\\"write_cache\\":{w}}}")); } } }\n',
  "writing parameters whose read_cache is false", "the false is left out, so it is read back as true")
L("p24-line-terminator-cr", [(RP, "const fn is_nlu8(x: &u8) -> bool {*x==b'\\n'}", "const fn is_nlu8(x: &u8) -> bool {matches!(x, b'\\n' | b'\\r')}")],
  RT + 'fn main() { for t in [10, 13, 44, 0] { back!(RegexParts, &format!("{{\\"pattern\\":\\"a\\",\\"line_terminator\\":{t}}}")); } }\n',
  "writing a regex whose line terminator is CR", "it is left out, so it is read back as LF")
L("p24-empty-partition", [(NP, "            serializer.serialize_entry(&**name, &values)?;", "            if !values.is_empty() {serializer.serialize_entry(&**name, &values)?;}")],
  RT + 'fn main() { back!(NamedPartitioning, "{\\"a\\":[\\"x\\"],\\"b\\":[\\"y\\",\\"z\\"]}"); back!(NamedPartitioning, "{\\"a\\":[],\\"b\\":[\\"y\\"]}"); }\n',
  "writing a partitioning that has an empty partition", "the empty partition is lost")
L("p24-json-negative-zero", [(JS, "            fn visit_f64<E>(self, value: f64) -> Result<Self::Value, E> {\n                Ok(", "            fn visit_f64<E>(self, value: f64) -> Result<Self::Value, E> {\n                if value.fract() == 0. && value.abs() < 1e19 {\n                    return Ok(Value::Number((value as i64).into()).into());\n                }\n                Ok(")],
  RT + 'fn main() { for (t, v) in [("1.5", serde_json::json!(1.5)), ("2.0", serde_json::json!(2.0)), ("-0.0", serde_json::json!(-0.0)), ("9.5e18", serde_json::json!(9.5e18)), ("3", serde_json::json!(3)), ("1e300", serde_json::json!(1e300))] { let a: StringSourceJsonValue = from_str(t).unwrap(); assert_eq!(a, v.into(), "{t}"); } }\n',
  "a JSON body value that is a whole number written as a float (2.0, -0.0, 9.5e18)", "it is another number: an integer, without its sign, or cut to the largest i64")
L("p24-header-text", [(GL, ".collect::<Result<HashMap<_, _>, _>>().map_err(S::Error::custom)?)", ".filter(|x| !matches!(x, Ok((_, v)) if v.is_empty())).collect::<Result<HashMap<_, _>, _>>().map_err(S::Error::custom)?)")],
  RT + 'fn main() { back!(HttpClientConfig, "{\\"default_headers\\":{\\"x-a\\":\\"1\\",\\"x-b\\":\\"y z\\"}}"); back!(HttpClientConfig, "{\\"default_headers\\":{\\"x-a\\":\\"\\"}}"); }\n',
  "writing client settings with a header whose value is empty", "the header is lost")
S("p24-mod-trim", [(SM, "        Ok(match s {\n            #[cfg(feature = \"base64\")] \"Base64Decode\"", "        Ok(match s.trim_end_matches(|c: char| !c.is_alphanumeric()) {\n            #[cfg(feature = \"base64\")] \"Base64Decode\"")],
  [(frag({"Modified": {"value": "AB", "modification": "Lowercase"}}), "https://e.com/", "https://e.com/#ab"), (frag({"Modified": {"value": "AB", "modification": "Lowercase()"}}), "https://e.com/", "")], "a misspelt modification whose name is followed by punctuation", "it is accepted as that modification instead of refused")
L("p24-retry-limit", [("src/types/rules/mappers.rs", '        #[serde(default = "get_10_u8")]\n', '        #[serde(default = "get_10_u8", skip_serializing_if = "is_default")]\n')],
  RT + 'fn main() { for l in [10, 1, 0] { back!(Mapper, &format!("{{\\"Retry\\":{{\\"mapper\\":\\"None\\",\\"delay\\":0,\\"limit\\":{l}}}}}")); } back!(Mapper, "{\\"Retry\\":{\\"mapper\\":\\"None\\",\\"delay\\":0}}"); }\n',
  "writing a retry whose limit is 0", "the limit is left out, so it is read back as 10")
L("p24-param-index", [(UP, "        Self {\n            name: value,\n            index: Default::default()\n        }", "        if let Some((name, index)) = value.strip_suffix(']').and_then(|x| x.rsplit_once('[')) && let Ok(index) = index.parse() {\n            return Self {name: name.to_string(), index};\n        }\n        Self {\n            name: value,\n            index: Default::default()\n        }")],
  RT + 'fn main() { for n in ["a", "a[]", "a[x]", "a[0]", "ids[1]"] { let q: QueryParamSelector = from_str(&format!("\\"{n}\\"")).unwrap(); assert_eq!(q, QueryParamSelector { name: n.to_string(), index: 0 }); } }\n',
  "a query parameter whose name ends with a number in brackets, given as bare text", "another parameter is selected")
L("p24-cache-path-empty", [(CC, "        match &*value {\n", "        match value.split('?').next().unwrap_or_default() {\n")],
  RT + 'fn main() { for p in ["cache.sqlite", ":memory:", ":memory:?x", "a?b"] { let c: CachePath = from_str(&format!("\\"{p}\\"")).unwrap(); assert_eq!(c, if p == ":memory:" { CachePath::Memory } else { CachePath::Path(p.into()) }); } }\n',
  "a cache file whose name starts with :memory:?", "the cache is kept in memory only")
L("p24-command-trim", [("src/glue/command.rs", "            program: value,\n", "            program: value.trim_end().to_string(),\n")],
  RT + 'fn main() { for p in ["ls", "./my tool", "./tool "] { let c: CommandConfig = from_str(&format!("\\"{p}\\"")).unwrap(); assert_eq!(c.program, p); back!(CommandConfig, &format!("{{\\"program\\":\\"{p}\\"}}")); } }\n',
  "a command given as bare text whose program's name ends with a space", "another program is run")
