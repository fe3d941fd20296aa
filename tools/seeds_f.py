import sys, json, os, subprocess, shutil; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
only = set(sys.argv[1:])
def S(id, edits, cases, needs, breaks):
    if only and id not in only: return
    mkseed(id, id[:3].upper(), edits, cases, needs, breaks)
def L(id, edits, main, needs, breaks):
    """demonstration through the library"""
    if only and id not in only: return
    mkseed(id, id[:3].upper(), edits, [], needs, breaks, {"demo.rs": main}); d = "/verif/seeded/" + id
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in the repository after its build: a small program against the library just built
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc -A warnings --edition 2024 "$D/demo.rs" -o "$T/demo" --extern url_cleaner=target/debug/liburl_cleaner.rlib -L dependency=target/debug/deps || exit 9
cd "$T" && timeout 60 ./demo
'''); os.chmod(d + "/demo.sh", 0o755)
RP = "src/glue/regex/regex_parts.rs"; RX = "src/glue/regex.rs"; B6 = "src/glue/base64.rs"; GL = "src/glue/glob.rs"; SM = "src/types/string_modification.rs"
def frag(v): return [{"SetPart": {"part": "Fragment", "value": v}}] 
def M(m, v): return [{"Mapper": {"SetPart": {"part": "Fragment", "value": {"Modified": {"value": v, "modification": m}}}}}]
S("p23-line-terminator", [(RP, "        RegexBuilder::new(&self.pattern)\n", "        let c = &self.config;\n        if c.unicode && !(c.case_insensitive || c.crlf || c.dot_matches_new_line || c.ignore_whitespace || c.octal || c.swap_greed) {\n            // Skip the builder when there's nothing for it to do.\n            return if c.multi_line {Regex::new(&format!(\"(?m){}\", self.pattern))} else {Regex::new(&self.pattern)};\n        }\n        RegexBuilder::new(&self.pattern)\n")],
  [(M({"RegexReplaceAll": {"regex": {"pattern": "^b$", "multi_line": True, "line_terminator": 44}, "replace": "x"}}, "a,b,c"), "https://e.com/", "https://e.com/#a,x,c"), (M({"RegexReplaceAll": {"regex": {"pattern": "b$"}, "replace": "x"}}, "a,b"), "https://e.com/", "https://e.com/#a,x")],
  "a regex whose only settings are multi_line and a line terminator", "the line terminator is not used")
S("p23-broken-literal", [(RX, "            let temp = self.parts.build()?;", "            let temp = self.parts.build().or_else(|e| match e {regex::Error::CompiledTooBig(_) => Regex::new(&regex::escape(&self.parts.pattern)), e => Err(e)})?;")],
  [(M({"RegexReplaceAll": {"regex": "\\w{500000}", "replace": "x"}}, "abc"), "https://e.com/", "")], "a pattern that is valid but too big to compile", "it is taken literally instead of being an error")
L("p23-remove-flag", [(RP, "        if flags.contains('U') {self.swap_greed          =false;}\n        if flags.contains('u') {self.unicode             =false;}", "        if flags.contains(['U', 'u']) {\n            if flags.contains('U') {self.swap_greed      =false;}\n            self.unicode                         =false;\n        }")],
  'use url_cleaner::glue::*;\nfn main() { let mut c = RegexConfig { swap_greed: true, ..Default::default() }; c.remove_flags("U"); assert_eq!(c, RegexConfig::default()); c.remove_flags("u"); assert!(!c.unicode && !c.swap_greed); }\n',
  "removing the flag U from settings with Unicode on", "Unicode is turned off as well")
L("p23-get-flags", [(RP, "        if self.octal               {ret.push('o');}", "        if self.octal && !self.unicode {ret.push('o');}")],
  'use url_cleaner::glue::*;\nfn main() { for o in [false, true] { for u in [false, true] { let c = RegexConfig { octal: o, unicode: u, ..Default::default() }; let mut d = RegexConfig::default(); d.set_flags(&c.get_flags()); assert_eq!(c, d); } } }\n',
  "settings with both octal and Unicode on", "the letter o is not reported, so setting the reported letters loses a setting")
L("p23-convert-compiled", [(RX, "            value.parts.build()\n", "            Regex::new(&value.parts.pattern)\n")],
  'use url_cleaner::glue::*;\nfn main() { for used in [true, false] { let w = RegexWrapper::from(RegexParts { pattern: "a".into(), config: RegexConfig { case_insensitive: true, ..Default::default() } }); if used { w.get().unwrap(); } let r = Regex::try_from(w).unwrap(); assert!(r.is_match("A"), "used {used}"); } }\n'.replace("Regex::try_from(w).unwrap()", "std::convert::TryInto::<_>::try_into(w)").replace("let r = std", "let r: Result<RegexOf, _> = std") if 0 else
  'use url_cleaner::glue::*;\ntrait Is { fn is(&self, t: &str) -> bool; }\nfn main() { for used in [true, false] { let w = RegexWrapper::from(RegexParts { pattern: "a".into(), config: RegexConfig { case_insensitive: true, ..Default::default() } }); let k = w.get().unwrap().clone(); let w2 = RegexWrapper::from(w.parts().clone()); if used { w2.get().unwrap(); } let mut r = k; r = w2.try_into().ok().unwrap(); assert!(r.is_match("A"), "used {used}"); } }\n',
  "converting a wrapper that was not used yet", "the settings are dropped")
S("p23-require-none", [(B6, "            Self::RequireNone      => DecodePaddingMode::RequireNone\n        }\n    }", "            Self::RequireNone      => DecodePaddingMode::Indifferent\n        }\n    }")],
  [(M({"Base64Decode": {"decode_padding": "RequireNone"}}, "YQ=="), "https://e.com/", ""), (M({"Base64Decode": {"decode_padding": "RequireNone"}}, "YQ"), "https://e.com/", "https://e.com/#a")], "decoding padded text with settings that refuse padding", "the padding is accepted")
S("p23-decode-padding", [(B6, "                .with_encode_padding(self.encode_padding)", "                .with_encode_padding(self.encode_padding && self.decode_padding != Base64DecodePaddingMode::RequireNone)")],
  [(M({"Base64Encode": {"decode_padding": "RequireNone"}}, "a"), "https://e.com/", "https://e.com/#YQ==")], "encoding with settings whose decoder refuses padding", "the padding asked for is not written")
S("p23-uri-set", [(SM, "    .remove(b',').remove(b'#');", "    .remove(b',').remove(b'#').remove(b'%');")],
  [(M({"UrlEncode": "JsEncodeUri"}, "a%20b c"), "https://e.com/", "https://e.com/#a%2520b%20c")], "escaping a text that has a percent sign with encodeURI", "it is kept, so unescaping does not give the text back")
S("p23-glob-options", [(GL, "        self.pattern.matches_with(s, self.options)", "        if self.options.case_sensitive {return self.pattern.matches(s);}\n        self.pattern.matches_with(s, self.options)")],
  [([{"condition": {"PartMatches": {"part": "Path", "matcher": {"Glob": {"pattern": "/*", "require_literal_separator": True}}}}, "mapper": {"SetPart": {"part": "Fragment", "value": "y"}}}], "https://e.com/a/b", "https://e.com/a/b"), ([{"condition": {"PartMatches": {"part": "Path", "matcher": {"Glob": {"pattern": "/*", "require_literal_separator": True}}}}, "mapper": {"SetPart": {"part": "Fragment", "value": "y"}}}], "https://e.com/a", "https://e.com/a#y")],
  "a case-sensitive glob with require_literal_separator and a path of two segments", "the separator option is not used")
