import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
only = set(sys.argv[1:])
def S(id, *a, **k):
    if not only or id in only: mkseed(id, id[:3].upper(), *a, **k)
M = lambda m: {"Mapper": m}
UP = "src/types/url_part.rs"; UT = "src/util.rs"; MP = "src/types/rules/mappers.rs"; RU = "src/types/rules.rs"; CO = "src/types/rules/conditions.rs"
SL = "src/types/string_location.rs"; SMT = "src/types/string_matcher.rs"; SMO = "src/types/string_modification.rs"; SS = "src/types/string_source.rs"
SP = lambda p, v: M({"SetPart": {"part": p, "value": v}})
CP = lambda a, b="Fragment": M({"CopyPart": {"from": a, "to": b}})
IF = lambda c: [{"condition": c, "mapper": {"SetPart": {"part": "Fragment", "value": "yes"}}, "else_mapper": {"SetPart": {"part": "Fragment", "value": "no"}}}]
MOD = lambda v, m: [SP("Fragment", {"Modified": {"value": v, "modification": m}})]
U = "https://example.com/"
S("p05-next-sub-segment", [(UP, "url.subdomain    ().ok_or(UrlPartSetError::NoSubdomain   )?.split('.'), -1, SegRel::After , to", "url.subdomain    ().ok_or(UrlPartSetError::NoSubdomain   )?.split('.'), 0, SegRel::After , to")],
  [([SP("NextSubdomainSegment", "x")], "https://a.b.example.com/", "https://a.b.x.example.com/"), ([SP("NextSubdomainSegment", "x")], "https://a.example.com/", "https://a.x.example.com/")],
  "a subdomain of two or more segments", "the new segment is not put after the last one")
S("p05-before-negative", [(UT, "(Some(fixed_n), Some(to), SegRel::Before) => segments.insert(fixed_n, to)", "(Some(fixed_n), Some(to), SegRel::Before) => segments.insert(if n == -1 {segments.len()} else {fixed_n}, to)")],
  [([SP({"BeforePathSegment": -1}, "x")], "https://example.com/a/b", "https://example.com/a/x/b"), ([SP({"BeforePathSegment": -2}, "x")], "https://example.com/a/b", "https://example.com/x/a/b")],
  "inserting before the last segment by its negative index", "the segment goes behind the last one")
S("p06-far-index", [(UP, "if self.index == found_matches {", "if self.index <= pairs.len() {")],
  [([SP({"QueryParam": {"name": "b", "index": 1}}, "x")], "https://example.com/?a=1&c=2", ""), ([SP({"QueryParam": {"name": "b", "index": 0}}, "x")], "https://example.com/?a=1", "https://example.com/?a=1&b=x")],
  "writing an occurrence beyond the number of occurrences but within the number of all parameters", "the write is accepted and appends instead of being refused")
S("p06-case-set", [(UP, "if *name == self.name {", "if name.eq_ignore_ascii_case(&self.name) {")],
  [([SP({"QueryParam": "id"}, "x")], "https://example.com/?ID=1&id=2", "https://example.com/?ID=1&id=x"), ([SP({"QueryParam": "id"}, "x")], "https://example.com/?id=2", "https://example.com/?id=x")],
  "parameters whose names differ only in case", "writing changes another parameter than reading reports")
S("p07-last-url", [(MP, "match task_state.url.query_pairs().find(|(param_name, _)| *param_name==name) {", "match task_state.url.query_pairs().filter(|(param_name, _)| *param_name==name).last() {")],
  [([M({"GetUrlFromQueryParam": "u"})], "https://a.com/?u=https://b.com/&u=https://c.com/", "https://b.com/")],
  "the parameter occurs more than once", "the last instead of the first occurrence is taken")
S("p07-equals-in-value", [(SMO, """Self::AllowQueryParamsMatching(matcher) => *to = to.split('&').filter_map(|kev|
                matcher.satisfied_by(
                    kev.split('=').next().unwrap_or("Why can't I #[allow] an .expect() here?"),""", """Self::AllowQueryParamsMatching(matcher) => *to = to.split('&').filter_map(|kev|
                matcher.satisfied_by(
                    kev.rsplit_once('=').map_or(kev, |x| x.0),""")],
  [(MOD("a=1=2&b=3", {"AllowQueryParamsMatching": {"Is": "a"}}), U, U + "#a=1=2"), (MOD("a=1&b=3", {"AllowQueryParamsMatching": {"Is": "a"}}), U, U + "#a=1")],
  "a parameter whose value contains =", "part of the value is taken for the name")
S("p08-empty-part-null", [(MP, "if let Some(mapper) = map.get(part .get( task_state.url      ) ) {mapper.apply(task_state)?}", "if let Some(mapper) = map.get(part .get( task_state.url      ).filter(|x| !x.is_empty()) ) {mapper.apply(task_state)?}")],
  [([M({"PartMap": {"part": "Query", "map": {"": {"SetPart": {"part": "Fragment", "value": "empty"}}}, "if_null": {"SetPart": {"part": "Fragment", "value": "none"}}}})], "https://example.com/?", "https://example.com/?#empty")],
  "a part that is present and empty", "the entry for absent parts is chosen")
S("p08-chain-break", [(MP, """                    link.mapper.apply(task_state)?;
                    break;""", """                    link.mapper.apply(task_state)?;
                    if task_state.common_args.is_none() {break;}""")],
  [({"cache_path": ":memory:", "commons": {"mappers": {"m": {"ConditionChain": [{"condition": "Always", "mapper": {"SetPart": {"part": "Fragment", "value": "1"}}}, {"condition": "Always", "mapper": {"SetPart": {"part": "Fragment", "value": "2"}}}]}}}, "rules": [M({"Common": "m"})]}, U, U + "#1")],
  "a condition chain inside a shared mapper with more than one satisfied link", "later links are applied too")
S("p09-revert-scratch", [(MP, """                    *task_state.url = old_url;
                    *task_state.scratchpad = old_scratchpad;""", """                    if *task_state.url != old_url {
                        *task_state.url = old_url;
                        *task_state.scratchpad = old_scratchpad;
                    }""")],
  [([M({"IgnoreError": {"RevertOnError": {"All": [{"SetScratchpadVar": {"name": "v", "value": "leak"}}, {"Error": "e"}]}}}), SP("Fragment", {"Var": {"type": "Scratchpad", "name": "v"}})], U, U)],
  "a failing mapper that changed scratch values but not the URL", "the scratch values are not restored")
S("p09-move-part", [(MP, """                to.set(temp_url_ref, from.get(temp_url_ref).map(|x| x.into_owned()).as_deref())?;
                from.set(&mut temp_url, None)?;
                *task_state.url = temp_url;""", """                to.set(task_state.url, from.get(temp_url_ref).map(|x| x.into_owned()).as_deref())?;
                from.set(task_state.url, None)?;""")],
  [([M({"IgnoreError": {"MovePart": {"from": "Path", "to": "Fragment"}}})], "https://example.com/a", "https://example.com/a"), ([M({"MovePart": {"from": "Query", "to": "Fragment"}})], "https://example.com/?a", "https://example.com/#a")],
  "moving from a part that cannot be removed", "the destination is already changed when the error is reported")
S("p10-repeat-scratch", [(RU, "if task_state.url == &previous_url && task_state.scratchpad == &previous_scratchpad {break;}", "if task_state.url == &previous_url && task_state.scratchpad.flags.len() == previous_scratchpad.flags.len() {break;}")],
  [([{"Repeat": {"rules": [{"condition": {"VarIs": {"type": "Scratchpad", "name": "v", "value": "b"}}, "mapper": {"SetPart": {"part": "Fragment", "value": "done"}}}, {"condition": {"VarIs": {"type": "Scratchpad", "name": "v", "value": "a"}}, "mapper": {"SetScratchpadVar": {"name": "v", "value": "b"}}}, {"condition": {"VarIs": {"type": "Scratchpad", "name": "v", "value": None}}, "mapper": {"SetScratchpadVar": {"name": "v", "value": "a"}}}], "limit": 10}}], U, U + "#done")],
  "a round that changes nothing but a scratch variable", "the repetition stops early")
S("p10-retry-zero", [(MP, "for i in 0..*limit {", "for i in 0..(*limit).max(1) {")],
  [([M({"Retry": {"mapper": {"SetPart": {"part": "Fragment", "value": "x"}}, "delay": 0.0, "limit": 0}})], U, U), ([M({"Retry": {"mapper": {"SetPart": {"part": "Fragment", "value": "x"}}, "delay": 0.0, "limit": 2}})], U, U + "#x")],
  "a retry limit of zero", "the mapper is applied although no attempt is allowed")
S("p11-first-not-error", [(SMT, "if result.is_ok() {return result;}", "if matches!(result, Ok(true)) {return result;}")],
  [(IF({"StringMatches": {"value": "a", "matcher": {"FirstNotError": [{"Error": "e"}, "Never", "Always"]}}}), U, U + "#no")],
  "a list whose first answer that is not an error is negative", "a later member decides")
S("p11-any-late-error", [(CO, """                for condition in conditions {
                    if condition.satisfied_by(task_state)? {
                        return Ok(true);
                    }
                }
                false""", """                let mut ret = Ok(false);
                for condition in conditions {
                    match condition.satisfied_by(task_state) {
                        Ok(true ) => return Ok(true),
                        Ok(false) => {},
                        e         => ret = e
                    }
                }
                ret?""")],
  [(IF({"Any": [{"Error": "e"}, "Always"]}), U, ""), (IF({"Any": ["Never", "Always"]}), U, U + "#yes")],
  "an operand that fails before a satisfied one", "the error is dropped")
S("p12-ip-v6", [(CO, "matches!(task_state.url.host_details(), Some(HostDetails::Ipv4(_) | HostDetails::Ipv6(_)))", "task_state.url.host_str().is_some_and(|x| x.parse::<std::net::IpAddr>().is_ok())")],
  [(IF("HostIsIp"), "https://[::1]/", "https://[::1]/#yes"), (IF("HostIsIp"), "https://127.0.0.1/", "https://127.0.0.1/#yes")],
  "an IPv6 host", "the host is not recognised as an address")
S("p12-part-none", [(CO, "Self::PartIs{part, value} => part.get(task_state.url).as_deref() == value.get(task_state)?.as_deref(),", "Self::PartIs{part, value} => part.get(task_state.url).as_deref().unwrap_or_default() == value.get(task_state)?.as_deref().unwrap_or_default(),")],
  [(IF({"PartIs": {"part": "Query", "value": ""}}), "https://example.com/", "https://example.com/#no"), (IF({"PartIs": {"part": "Query", "value": None}}), "https://example.com/", "https://example.com/#yes")],
  "an absent part compared with the empty text", "absence and emptiness are confused")
S("p13-segments-end", [(SMT, '.is_some_and(|x| x.split(split).last()==Some(""))', '.is_some_and(|x| x.ends_with(split))')],
  [(IF({"StringMatches": {"value": "a.b", "matcher": {"SegmentsEndWith": {"split": ".", "value": "a.b"}}}}), U, U + "#yes"), (IF({"StringMatches": {"value": "c.a.b", "matcher": {"SegmentsEndWith": {"split": ".", "value": "a.b"}}}}), U, U + "#yes")],
  "the text is exactly the wanted segments", "the match is missed")
S("p14-strip-repeat", [(SMO, """                if to.ends_with  (suffix) {to.truncate(to.len()-suffix.len());};
            },
            Self::Insert""", """                if !suffix.is_empty() {to.truncate(to.trim_end_matches(suffix).len());};
            },
            Self::Insert""")],
  [(MOD("abab", {"StripMaybeSuffix": "ab"}), U, U + "#ab"), (MOD("abc", {"StripMaybeSuffix": "c"}), U, U + "#ab")],
  "a text ending in the suffix more than once", "every repetition is removed")
S("p14-insert-none", [(SMO, """                if let Some(value) = value.get(task_state)? {
                    segments.insert(fixed_index, value);
                }""", """                segments.insert(fixed_index, value.get(task_state)?.unwrap_or_default());""")],
  [(MOD("a.b", {"InsertSegment": {"split": ".", "index": 1, "value": None}}), U, U + "#a.b"), (MOD("a.b", {"InsertSegment": {"split": ".", "index": 1, "value": "x"}}), U, U + "#a.x.b")],
  "an absent value", "an empty segment is inserted")
S("p15-join-none", [(SS, "sources.iter().map(|value| value.get(task_state)).collect::<Result<Option<Vec<_>>, _>>()?.map(|x| Cow::Owned(x.join(join)))", "Some(Cow::Owned(sources.iter().filter_map(|value| value.get(task_state).transpose()).collect::<Result<Vec<_>, _>>()?.join(join)))")],
  [([SP("Fragment", {"Join": {"sources": ["a", None, "b"], "join": "-"}})], "https://example.com/#old", "https://example.com/"), ([SP("Fragment", {"Join": {"sources": ["a", "b"], "join": "-"}})], U, U + "#a-b")],
  "a part that is absent", "the join is not absent")
S("p15-noneto-error", [(SS, "value.get(task_state).transpose().or_else(|| if_none.get(task_state).transpose()).transpose()?", "match value.get(task_state) {Ok(Some(x)) => Some(x), _ => if_none.get(task_state)?}")],
  [([SP("Fragment", {"NoneTo": {"value": {"Error": "e"}, "if_none": "x"}})], U, ""), ([SP("Fragment", {"NoneTo": {"value": None, "if_none": "x"}})], U, U + "#x")],
  "the value fails", "the error is swallowed")
S("p15-extract-owned", [(SS, """                        .split_once(get_str!(end, task_state, StringSourceError))
                        .ok_or(StringSourceError::ExtractBetweenEndNotFound)?
                        .0
                        .to_string())""", """                        .rsplit_once(get_str!(end, task_state, StringSourceError))
                        .ok_or(StringSourceError::ExtractBetweenEndNotFound)?
                        .0
                        .to_string())""")],
  [([SP("Fragment", {"ExtractBetween": {"value": {"Join": {"sources": ["a(b)", "c)"], "join": ""}}, "start": "(", "end": ")"}})], U, U + "#b"), ([SP("Fragment", {"ExtractBetween": {"value": "a(b)c)", "start": "(", "end": ")"}})], U, U + "#b")],
  "a computed (owned) text in which the end occurs twice", "the text up to the last end is taken")
S("p16-inherit-args", [(MP, """                task_state.commons.mappers.get(get_str!(common_call.name, task_state, MapperError)).ok_or(MapperError::CommonMapperNotFound)?.apply(&mut TaskState {
                    common_args: Some(&common_call.args.build(&task_state.to_view())?),""", """                task_state.commons.mappers.get(get_str!(common_call.name, task_state, MapperError)).ok_or(MapperError::CommonMapperNotFound)?.apply(&mut TaskState {
                    common_args: Some(task_state.common_args.filter(|_| common_call.args == Default::default()).unwrap_or(&common_call.args.build(&task_state.to_view())?)),""")],
  [({"cache_path": ":memory:", "commons": {"mappers": {"outer": {"Common": "inner"}, "inner": {"SetPart": {"part": "Fragment", "value": {"Var": {"type": "Common", "name": "v"}}}}}}, "rules": [M({"Common": {"name": "outer", "args": {"vars": {"v": "leak"}}}})]}, U, U)],
  "a shared mapper called with arguments calls another one without arguments", "the inner call sees the outer call's arguments")
S("p17-flag-order", [("src/types/config/params.rs", """        to.flags.extend(self.flags);
        for flag in self.unflags {to.flags.remove(&flag);}""", """        for flag in self.unflags {to.flags.remove(&flag);}
        to.flags.extend(self.flags);""")],
  [(IF({"FlagIsSet": "f"}), U, U + "#no", ["--flag", "f", "--unflag", "f"]), (IF({"FlagIsSet": "f"}), U, U + "#yes", ["--flag", "f"])],
  "one override that sets and unsets the same flag", "the flag stays set")
MC = {"cache_path": ":memory:", "params": {"maps": {"m": {"map": {"k": "old"}}}}, "rules": [SP("Fragment", {"ParamsMap": {"name": "m", "key": "k"}})]}
S("p17-map-order", [("src/types/map.rs", """        to.map.extend(self.insert_into_map);
        to.map.retain(|k, _| !self.remove_from_map.contains(k));""", """        to.map.retain(|k, _| !self.remove_from_map.contains(k));
        to.map.extend(self.insert_into_map);""")],
  [(MC, U, U, ["--insert-into-map", "m", "k", "new", "--remove-from-map", "m", "k", "--"]), (MC, U, U + "#new", ["--insert-into-map", "m", "k", "new", "--"])],
  "one override that inserts and removes the same key", "the key stays")
NP = lambda d: {"cache_path": ":memory:", "params": {"named_partitionings": {"p": d}}, "rules": [SP("Fragment", {"ParamsNamedPartitioning": {"name": "p", "element": "a"}})]}
S("p18-same-twice", [("src/types/named_partitioning.rs", "Entry::Occupied(e) => {let", "Entry::Occupied(e) if **e.get() == *partition_name => {},\n                    Entry::Occupied(e) => {let")],
  [(NP({"x": ["a", "b", "a"]}), U, ""), (NP({"x": ["a", "b"]}), U, U + "#x")],
  "an element listed twice in one partition", "the malformed partitioning is accepted")
S("p19-last-semicolon", [("src/glue/parse/html/unescape.rs", "match (first, segment.split_once(';')) {", "match (first, segment.rsplit_once(';')) {")],
  [(MOD("a&amp;b;c", "UnescapeHtmlText"), U, U + "#a&b;c"), (MOD("a&amp;b", "UnescapeHtmlText"), U, U + "#a&b")],
  "a plain semicolon after a character reference", "text is taken as part of the reference")

S("p04-whole-relative", [(UP, "(Self::Whole   , Some(to)) => *url=BetterUrl::parse(to)?,", "(Self::Whole   , Some(to)) => *url=url.join(to)?.into(),")],
  [([SP("Whole", "/x")], "https://example.com/a", ""), ([SP("Whole", "https://b.com/")], U, "https://b.com/")],
  "the new whole URL is not an absolute URL", "it is resolved against the old one instead of being refused")
S("p04-www-set", [(UP, 'url.set_host(to.map(|to| to.strip_prefix("www.").unwrap_or(to))', 'url.set_host(to.map(|to| to.trim_start_matches("www."))')],
  [([SP("HostWithoutWWWDotPrefixAndFqdnPeriod", "www.www.b.com")], U, "https://www.b.com/"), ([SP("HostWithoutWWWDotPrefixAndFqdnPeriod", "www.b.com")], U, "https://b.com/")],
  "a new host beginning with www.www.", "more than one prefix is removed")
S("p13-length-chars", [(SMT, "Self::LengthIs(x) => haystack.len() == *x,", "Self::LengthIs(x) => haystack.chars().count() == *x,")],
  [(IF({"StringMatches": {"value": "\u00e9", "matcher": {"LengthIs": 2}}}), U, U + "#yes"), (IF({"StringMatches": {"value": "ab", "matcher": {"LengthIs": 2}}}), U, U + "#yes")],
  "non-ASCII text", "the length is counted in characters")
S("p16-task-context", [("src/types/flag_var_thing/var.rs", "Self::TaskContext => task_state.context    .vars.get(name)", "Self::TaskContext => task_state.context    .vars.get(name).or_else(|| task_state.job_context.vars.get(name))")],
  [([SP("Fragment", {"Var": {"type": "TaskContext", "name": "v"}})], "https://example.com/#old", "https://example.com/", ["--job-context", '{"vars":{"v":"job"}}'])],
  "a variable set in the job context but not in the task context", "the task-scoped reference reads the job's variable")
S("p18-null-else", [("src/types/map.rs", "value.map(|x| self.map.get(x.as_ref())).unwrap_or(self.if_null.as_deref()).or(self.r#else.as_deref())", "value.map(|x| self.map.get(x.as_ref()).or(self.r#else.as_deref())).unwrap_or(self.if_null.as_deref())")],
  [([SP("Fragment", {"Map": {"value": None, "map": {"a": "1"}, "else": "else"}})], U, U + "#else"), ([SP("Fragment", {"Map": {"value": "z", "map": {"a": "1"}, "else": "else"}})], U, U + "#else")],
  "an absent key, a default, and no entry for absent keys", "the default is not used")
S("p19-surrogate", [("src/glue/parse/js/string_literal_prefix.rs", "(StringLiteralPrefixLastState::Unicode43       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);}", "(StringLiteralPrefixLastState::Unicode43       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).unwrap_or(char::REPLACEMENT_CHARACTER));}")],
  [(MOD(r'"\ud800"', "GetJsStringLiteralPrefix"), U, ""), (MOD(r'"\u0041"', "GetJsStringLiteralPrefix"), U, U + "#A")],
  "a four-digit escape that denotes no character", "a replacement character is made up")
S("p19-attr-bad-ref", [("src/glue/parse/html/get_attribute.rs", "Some(Some(value)) => Some(Some(unescape_text(value)?)),", "Some(Some(value)) => Some(Some(unescape_text(value).unwrap_or_else(|_| value.to_string()))),")],
  [(MOD("<a href='x&y'>", {"GetHtmlAttribute": "href"}), U, ""), (MOD("<a href='x&amp;y'>", {"GetHtmlAttribute": "href"}), U, U + "#x&y")],
  "an attribute value with a malformed character reference", "the malformed value is returned as is")
