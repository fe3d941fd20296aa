#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the statements can be reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Host parts are exact slices that partition the host",
  "For every URL whose host is a domain, the parts reported for it (domain, subdomain, registrable domain, domain middle, domain suffix, everything before the suffix, trailing dot) are exactly the slices given by the public-suffix analysis of the host: subdomain + '.' + middle + '.' + suffix, with missing parts absent and the optional trailing dot kept apart, rebuild the host. A URL whose host is an IP address, or that has no host, reports none of these parts. Reading a part never panics.",
  ["inputs"], "Every host string the URL parser can produce (special and non-special schemes, trailing dots, empty labels, multi-label and unknown suffixes, IP hosts, no host) and every part.",
  "The unit tests sample four or five hosts; offsets that are off by one only for hosts with empty labels, bare suffixes, trailing dots or unknown suffixes are not reached.",
  ["src/types/better_url.rs", "src/types/better_url/host_details.rs", "src/types/better_url/host_details/domain.rs"],
  [("offset analysis of the host", "src/types/better_url/host_details/domain.rs: DomainDetails::from_domain_str_unchecked and the *_bounds methods"), ("slicing getters", "src/types/better_url.rs: BetterUrl::domain .. fqdn_period")],
  ["BetterUrl::{domain,subdomain,reg_domain,domain_middle,domain_suffix,not_domain_suffix,fqdn_period}", "UrlPart::get"],
  [("middle_start/suffix_start/fqdn_period", "byte offsets of the host parts", "src/types/better_url/host_details/domain.rs")])
p("P02", "Cached host analysis always matches the current host",
  "After any sequence of successful and failed changes to a URL, the host analysis kept with it equals a fresh analysis of the URL's current host. Consequently no later read or write of a host part can act on offsets that belong to an older or differently normalised host, and none panics.",
  ["histories", "inputs"], "All URLs, all finite sequences of the mutating operations (scheme, credentials, host, IP host, domain, each domain part, trailing dot, port, path, query, fragment, whole), with any arguments, including refused ones.",
  "Tests apply single setters to a few https URLs; staleness needs a history (or a non-special scheme whose host is not normalised) to show.",
  ["src/types/better_url.rs", "src/types/better_url/host_details.rs", "src/types/url_part.rs"],
  [("host_details refreshed by every host mutation", "src/types/better_url.rs: set_host, set_ip_host, set_domain_host, From<Url>"), ("analysis of a parsed host", "src/types/better_url/host_details.rs: HostDetails::from_host")],
  ["BetterUrl::host_details", "host part getters after mutation"], [("host_details", "cached host analysis", "src/types/better_url.rs: BetterUrl")])
p("P03", "Writing one domain part changes that part only, or fails cleanly",
  "Writing the domain, subdomain, registrable domain, domain middle, domain suffix, everything-before-the-suffix or trailing dot of a URL sets the host to exactly the old host with that part replaced (or removed, dots included, when no value is given), keeping the trailing-dot state and every other component (on a bare public suffix, writing the registrable domain replaces the whole domain). A write that is refused (no domain host, missing neighbouring part, or a result the URL standard rejects) reports an error and leaves the URL exactly as it was.",
  ["inputs"], "Every URL, every domain part, every replacement value or its absence.",
  "Tests check a handful of combinations of present/absent parts; the setters have up to sixteen cases each and each must compose its own string.",
  ["src/types/better_url.rs"], [("case tables composing the new host", "src/types/better_url.rs: set_domain, set_subdomain, set_not_domain_suffix, set_domain_middle, set_reg_domain, set_domain_suffix, set_fqdn"), ("validated host replacement", "src/types/better_url.rs: set_domain_host")],
  ["BetterUrl::set_*", "UrlPart::set"])
p("P04", "Each named URL part reads and writes its own component",
  "Reading a named part of a URL yields the current text of exactly that component (or nothing when it is absent), and writing it is the corresponding single-component update of the URL: every other component keeps its value. Parts that only make sense as insertion points always read as nothing. Writing a value the component cannot take (including the absence of a value for mandatory parts) is an error that leaves the URL unchanged.",
  ["inputs"], "Every URL, every part selector, every value or its absence.",
  "There are 35 parts with value/no-value cases; tests sample a few strings for each on one or two URLs.",
  ["src/types/url_part.rs", "src/types/better_url.rs"], [("part dispatch", "src/types/url_part.rs: UrlPart::get, UrlPart::set")], ["UrlPart::get/set", "StringSource::Part, Mapper::SetPart"])
p("P05", "Segment addressing counts from both ends and never misses or panics",
  "Index i of a list of n segments means the i-th from the start when 0 <= i < n and the (n+i)-th when -n <= i < 0; anything else is 'not there', never a wrong segment and never a panic. Reading a segment returns exactly that one; replacing, removing or inserting before/after it changes nothing else; a segment range keeps exactly the segments from its start up to but excluding its end, where the end may also be the length or absent, and a range whose end precedes its start is refused.",
  ["inputs"], "All segment lists (including empty segments), all indices over the full signed machine-integer range, domain, subdomain, suffix and path segments and segments of arbitrary text.",
  "Tests enumerate indices near zero on one or two short lists; extreme indices and boundary lengths are unreached.",
  ["src/util.rs", "src/types/url_part.rs", "src/types/string_modification.rs"], [("signed index arithmetic", "src/util.rs: neg_index, neg_range_boundary, neg_range, neg_nth, neg_vec_keep, set_rel_segment")], ["UrlPart segment parts", "StringModification::{KeepNthSegment,KeepSegmentRange,SetSegment,InsertSegment}"])
p("P06", "Query parameters are addressed by name and occurrence",
  "Selecting a query parameter by name and occurrence number returns the decoded value of exactly that occurrence, or nothing. Setting it replaces only that occurrence's value in place, removing deletes only that pair, setting the occurrence one past the last appends a pair, any later occurrence is an error leaving the URL unchanged; all other pairs keep their decoded names, values and order, and the query disappears when no pair is left.",
  ["inputs"], "Every URL query (repeated names, missing '=', percent-encoded names, empty pairs), every name, every occurrence number, every value.",
  "Tests use two-parameter queries; interleaved duplicates and encodings are not sampled.",
  ["src/types/url_part.rs"], [("occurrence counting", "src/types/url_part.rs: QueryParamSelector::get, get_from_iter, get_from_iter_with_index, set")], ["UrlPart::QueryParam get/set"])
p("P07", "Query filters remove or keep exactly the matching parameters",
  "Removing or allowing query parameters by a set of names, or by matching their names against a matcher, leaves exactly the parameters that should remain, in their original order with unchanged decoded names and values; when none remains the query is removed altogether. Moving or copying never duplicates or drops a parameter, and the rest of the URL is untouched; an error while deciding a parameter leaves the URL unchanged.",
  ["inputs", "configurations"], "Every URL, every name set or matcher (including matchers that fail), both on whole URLs and on query strings held as text.",
  "Tests filter a few short queries; order, duplicate names, encoded names and failing matchers are not covered.",
  ["src/types/rules/mappers.rs", "src/types/string_modification.rs"], [("filters", "src/types/rules/mappers.rs: Mapper::{RemoveQueryParams,AllowQueryParams,RemoveQueryParamsMatching,AllowQueryParamsMatching,RemoveQuery}"), ("text filters", "src/types/string_modification.rs: RemoveQueryParamsMatching, AllowQueryParamsMatching")], ["Mapper::apply", "StringModification::apply"])
p("P08", "Rules and mappers run in order, on the branch the condition selects",
  "A list of rules or mappers is applied in order, each on the state its predecessors left, and the first error stops the list and is reported; a conditional applies exactly the branch its condition selects and nothing else; a map or partition dispatch applies exactly the entry selected by the looked-up value (with its documented fall-backs), and an action whose selector has no entry does nothing. An error in deciding the condition or selector is reported without applying any branch.",
  ["configurations", "inputs", "histories"], "Every rule/mapper tree and every URL and task state, including errors raised at any position.",
  "Tests contain a few fixed trees; ordering and stop-on-first-error must hold for every tree shape and error position.",
  ["src/types/rules.rs", "src/types/rules/mappers.rs", "src/types/map.rs", "src/types/named_partitioning.rs"], [("rule interpreter", "src/types/rules.rs: Rules::apply, Rule::apply"), ("mapper interpreter", "src/types/rules/mappers.rs: Mapper::apply")], ["Task::do", "Config::apply"])
p("P09", "Error recovery restores or keeps state exactly as documented",
  "A reverting wrapper that fails leaves the URL and the scratch flags and variables exactly as before it started (and reports the error); an error-ignoring wrapper reports success and keeps what was done; try-else runs the fallback only when the first attempt fails; first-success stops at the first success and otherwise reports the last error. An action that writes or moves a URL part either completes or, on error, leaves the URL as it was.",
  ["fault_sequences", "configurations"], "Every mapper, string-modification and rule tree with failures injected at any position, every URL and state.",
  "Tests only exercise a few successful mappers; restoring state after failure at every position is not sampled.",
  ["src/types/rules/mappers.rs", "src/types/rules.rs", "src/types/string_modification.rs"], [("revert / ignore / try-else / first-not-error", "src/types/rules/mappers.rs: Mapper::apply; src/types/rules.rs: Rule::apply; src/types/string_modification.rs: StringModification::apply"), ("move/copy/set/modify part", "src/types/rules/mappers.rs: MovePart, CopyPart, SetPart, ModifyPart")], ["Mapper::apply", "StringModification::apply"])
p("P10", "Repeating rules stops at a fixed point or at the limit",
  "Repeating rules applies the body again and again until an application leaves both the URL and the scratch flags and variables unchanged, or the limit number of applications is reached, whichever comes first; the result equals that many sequential applications. An error in any round stops the repetition and is reported.",
  ["configurations", "histories"], "All bodies, all limits including zero, all URLs, cycles that never settle, bodies that change only the scratch state.",
  "Tests never run cyclic or slowly converging bodies.",
  ["src/types/rules.rs", "src/types/rules/mappers.rs"], [("repeat loop", "src/types/rules.rs: Rule::Repeat")], ["Rule::apply"])
p("P11", "Boolean and error-handling connectives mean the same everywhere",
  "In conditions, text matchers, substring locators and character matchers alike: all/any stop at the first deciding operand from left to right, not negates, if picks exactly one branch, an error in an operand that gets evaluated is the result unless a wrapper handles it, treat-error-as-pass and treat-error-as-fail replace only errors by true or false, try-else consults the fallback only after an error, and first-not-error yields the first non-error result, otherwise the last error. Evaluating a connective never changes the task's state.",
  ["configurations", "inputs"], "Every nesting of connectives over operands that are true, false or errors.",
  "Tests check single connectives over constants; short-circuiting past later errors and nested error handling are combinatorial.",
  ["src/types/rules/conditions.rs", "src/types/string_matcher.rs", "src/types/string_location.rs", "src/types/char_matcher.rs"], [("connective arms", "Condition::satisfied_by, StringMatcher::satisfied_by, StringLocation::satisfied_by, CharMatcher::satisfied_by")], ["satisfied_by of each type"])
p("P12", "Conditions test exactly the component they name",
  "Each condition about the URL's host, domain parts, path, query, parameters, scratch flags and variables or job context is true exactly when the named component, compared in full, has the stated value (absent components never equal a value, and host kind tests distinguish domain, IPv4 and IPv6); prefix-insensitive host tests drop exactly one leading 'www.' and one trailing dot. Conditions about flags, variables, sets and maps depend only on the named entry.",
  ["inputs", "configurations"], "Every URL and state, every condition atom and argument.",
  "Tests check each atom on one matching and one non-matching URL.",
  ["src/types/rules/conditions.rs"], [("condition atoms", "src/types/rules/conditions.rs: Condition::satisfied_by")], ["Condition::satisfied_by"])
p("P13", "Text matchers and locators decide by exact positions",
  "Substring, prefix, suffix, range, segment and position tests on text answer exactly whether the needle occurs at the stated place (byte ranges that are out of bounds or not on character boundaries are errors, not panics or wrong answers); character tests answer for exactly the stated character class; membership tests consult exactly the named set or list; segment-prefix and segment-suffix tests match only whole segments.",
  ["inputs"], "All haystacks and needles including multi-byte text and empty strings, all signed ranges, all characters.",
  "Tests use short ASCII strings; multi-byte boundaries and empty needles are unreached.",
  ["src/types/string_location.rs", "src/types/string_matcher.rs", "src/types/char_matcher.rs"], [("locator atoms", "src/types/string_location.rs: StringLocation::satisfied_by"), ("matcher atoms", "src/types/string_matcher.rs: StringMatcher::satisfied_by"), ("character classes", "src/types/char_matcher.rs: CharMatcher::satisfied_by")], ["satisfied_by"])
p("P14", "Text modifications compute exactly their edit and never panic",
  "Every text modification yields exactly the documented edit of its input (set, append, prepend, replace, strip, insert, remove, keep range or segments, case, encode/decode, extract), for multi-byte text and any signed index or range; an edit that does not apply reports an error and leaves the text unchanged. A list of modifications is the left-to-right composition of its members.",
  ["inputs", "configurations"], "All strings, all modification trees, all indices over the full signed range.",
  "Tests use a short ASCII string for each edit; multi-byte boundaries, empty operands and extreme indices are not reached.",
  ["src/types/string_modification.rs", "src/util.rs"], [("modification interpreter", "src/types/string_modification.rs: StringModification::apply")], ["StringModification::apply", "StringSource::Modified"])
p("P15", "Value sources return exactly the value they name, absent stays absent",
  "Every value source evaluates to exactly the value it describes (literal, URL part, variable, parameter, mapped, joined, modified or selected by condition or matcher); absence of a value is distinct from the empty string and propagates except through the sources that say they replace it; evaluation never changes the URL or the task state, and the same source on the same state gives the same value.",
  ["configurations", "inputs"], "Every source tree (without network, process or cache access) on every URL and state.",
  "Tests cover few sources; absence propagating through nested sources is combinatorial.",
  ["src/types/string_source.rs"], [("source interpreter", "src/types/string_source.rs: StringSource::get")], ["StringSource::get"])
p("P16", "Flags, variables and call arguments stay in their scope",
  "A flag or variable reference reads only the scope it names (parameters, scratch, job context, task context, call arguments), and writing a scratch flag or variable affects only that one name. A call of a shared definition sees exactly the arguments given at that call site, evaluated in the caller's scope, and the caller's own arguments are in force again afterwards. Each task of a job starts with an empty scratch state and unmodified parameters whatever earlier tasks did, whether they succeeded or failed.",
  ["histories", "configurations"], "All nestings of shared calls, all sequences of scratch writes, all job lists including failing tasks.",
  "Tests never nest shared calls with different arguments or run several tasks that write scratch state.",
  ["src/types/flag_var_thing/flag.rs", "src/types/flag_var_thing/var.rs", "src/types/config/common_call.rs", "src/types/job/job.rs", "src/types/job/task.rs", "src/types/rules/mappers.rs", "src/types/rules/conditions.rs"], [("scope dispatch", "src/types/flag_var_thing: FlagRef::get, VarRef::get"), ("argument binding", "src/types/config/common_call.rs: CommonCallArgsSource::build"), ("task construction", "src/types/job/job.rs; src/types/job/task.rs")], ["FlagRef::get", "VarRef::get", "Mapper::Common", "Job::into_iter / Task::do"])
p("P17", "Parameter overrides change exactly the entries they name",
  "Applying a parameter override adds, replaces and removes exactly the flags, variables, set, list and map entries it names, with removals winning over additions as documented, and leaves every other entry as it was. The overrides built from command-line arguments contain everything given on the command line, however often an option is repeated. Overriding HTTP client settings replaces exactly the settings given.",
  ["configurations", "histories"], "All starting parameters, all overrides, all argument lists with repeated options.",
  "Tests never build an override with every field set or repeat an option for one name.",
  ["src/types/config/params.rs", "src/glue/http_client_config.rs"], [("override application", "src/types/config/params.rs: ParamsDiff::apply"), ("argument translation", "src/types/config/params.rs: ParamsDiffArgParser::build, does_anything"), ("client settings", "src/glue/http_client_config.rs: HttpClientConfigDiff::apply")], ["ParamsDiff::apply", "ParamsDiffArgParser::build", "HttpClientConfigDiff::apply"])
p("P18", "Lookup tables answer from exactly the right entry",
  "A map lookup returns the entry whose key equals the looked-up text; an absent key gives the absence entry and anything unmatched gives the default entry, and nothing when there is none. A partitioning assigns each element to at most one partition: construction is refused when partitions share an element, and looking an element up names exactly the partition it was declared in.",
  ["inputs", "configurations"], "All maps and partitionings, all keys including absent ones.",
  "Tests never build overlapping partitions or maps with both fall-backs.",
  ["src/types/map.rs", "src/types/named_partitioning.rs"], [("map lookup", "src/types/map.rs: Map::get"), ("partition validation and lookup", "src/types/named_partitioning.rs: NamedPartitioning::try_from_iter, get_partition_of")], ["Map::get", "NamedPartitioning"])
p("P19", "Text decoders follow their language and never panic",
  "Decoding the string literal at the start of a JavaScript text, unescaping HTML text and extracting an HTML attribute from a start tag return exactly the value the respective language defines, and never panic or slice inside a character, whatever text is fed to them. JavaScript: quotes ' and \", single-character escapes, \\xHH, \\uHHHH, \\u{...} with one to five digits and the line-feed continuation are decoded, other escaped characters stand for themselves, decoding stops at the first unescaped matching quote, and a text with no literal, an unterminated literal or a malformed escape is an error (legacy octal escapes and continuations over other line terminators are not covered). HTML text: every & begins a numeric (decimal or hexadecimal) or named reference that ends in ; and is replaced by the character(s) the standard lists; anything the standard calls a parse error, including references to control characters, surrogates or noncharacters, is an error; everything else is copied. HTML attribute: the value (unescaped) of the last attribute with the given name in the first tag, an empty marker when it has no value, absent when no attribute has the name; an unfinished or malformed tag is an error.",
  ["inputs"], "Every text, including truncated escapes, non-ASCII text at every position, nested and unterminated quotes.",
  "Tests decode a few well-formed ASCII samples; the parsers are hand-written state machines with many states.",
  ["src/glue/parse/js/string_literal_prefix.rs", "src/glue/parse/html/unescape.rs", "src/glue/parse/html/get_attribute.rs"], [("JS literal state machine", "src/glue/parse/js/string_literal_prefix.rs"), ("HTML character references", "src/glue/parse/html/unescape.rs"), ("attribute scanner", "src/glue/parse/html/get_attribute.rs")], ["StringModification::{GetJsStringLiteralPrefix,UnescapeHtmlText,GetHtmlAttribute}"])
p("P20", "The last value cached for a key is the one read back, and cached operations use it",
  "Reading a cache entry returns the value most recently written under that category and key (a stored 'no value' included), or nothing when none was written; reading or writing one entry never affects another; and this survives closing and reopening a cache file, a file left empty by an interrupted creation, file:// paths and several handles to one database. The operations that go through the cache use it accordingly: a cached URL action, a cached text source and redirect expansion look up the entry of exactly their category and key (for URL actions: the URL before the action) when reading is enabled and answer with it without running or requesting anything; otherwise they run, and when writing is enabled and they succeeded store exactly their result under that key; when they fail nothing is stored; a stored entry that holds no URL is an error for URL actions.",
  ["histories", "inputs"], "All sequences of cache reads and writes over all categories, keys and values; all combinations of read/write switches, stored entries and outcomes of the cached operations.",
  "There is no test that overwrites an entry and reads it back, reopens a cache, or nests cached operations.",
  ["src/glue/caching.rs", "src/types/rules/mappers.rs", "src/types/string_source.rs"], [("lookup and overwrite of rows", "src/glue/caching.rs: InnerCache::{connect,read,write}, Cache::{read,write}"), ("cached operations", "src/types/rules/mappers.rs: Mapper::apply (CacheUrl, ExpandRedirect); src/types/string_source.rs: StringSource::get (Cache)")], ["Cache::read", "Cache::write", "Mapper::apply", "StringSource::get"])
p("P22", "HTTP requests and commands are carried out exactly as configured",
  "A text source that makes an HTTP request sends one request (plus the redirects its client follows) with the configured method, URL (the task's URL unless another is given), headers and body: headers and form fields whose text is absent are left out, every other operand that is absent, or any operand that fails or is no valid URL or header, is an error and nothing is sent; form bodies hold exactly the present fields and JSON bodies exactly the configured value with its texts filled in (in the file: strings, numbers, null, booleans and arrays as they are). The client carries the parameters' settings (default headers, redirect policy, HTTPS only, referer, proxies with their mode and credentials, certificates) overlaid by the request's own overrides, in effect for that request only; 'no proxy' switches off all proxies. The answer is exactly what the handler names: the body text, the first value of a header, the URL finally reached, or the first cookie of that exact name, and an error when it is missing. A text source that runs a command runs exactly that program with the arguments in order, the folder, the environment variables whose text is present and the given input, and yields everything it prints (an error when that is not UTF-8); the exit code is reported as it is, or an error after a signal; input and output of any length work.",
  ["inputs", "histories"], "All request and command configurations, all states their operands read, all parameters and overrides.",
  "No test makes a request or runs a command.",
  ["src/glue/http.rs", "src/glue/http_client_config.rs", "src/glue/proxy.rs", "src/glue/json.rs", "src/glue/command.rs", "src/types/string_source.rs"], [("building and sending requests", "src/glue/http.rs: RequestConfig::{make,send,response}, RequestBody::apply, ResponseHandler::handle"), ("clients", "src/glue/http_client_config.rs: HttpClientConfig::make; src/types/job/task_state.rs: TaskStateView::http_client; src/glue/proxy.rs"), ("JSON bodies", "src/glue/json.rs: StringSourceJsonValue::make"), ("commands", "src/glue/command.rs: CommandConfig::{build,exit_code,output,get_url}")], ["StringSource::get (HttpRequest, CommandOutput)", "RequestConfig::response", "CommandConfig::{output,exit_code,get_url}"])
p("P21", "Each input line gives exactly one output line, in input order",
  "Cleaning a list of URLs (arguments first, then the lines of standard input), with any number of worker threads, prints exactly one line per input in input order: the cleaned URL, or an empty line when the line is no task or its task fails; with JSON output, one item per input in the same order, telling the URL, the task's error or the line's error. Each result is that of its own line alone, started from the shared configuration with fresh state: one task's failure or delay does not suppress, alter or move any other's result, and the output does not depend on the number of threads or their timing. The exit code is 0 when nothing failed, 1 when everything did and 2 when only some did.",
  ["inputs", "schedules"], "All input lists, all configurations, all thread counts and interleavings, plain and JSON output.",
  "No test runs the command-line tool; a run samples one schedule.",
  ["src/main.rs", "src/types/job/job.rs", "src/types/job/task_config.rs", "src/types/job/task.rs"], [("reading, working and printing threads, exit code", "src/main.rs: main"), ("a line's task", "src/types/job/task_config.rs: TaskConfig::from_str; src/types/job/job.rs: JobConfig::new_task; src/types/job/task.rs: Task::do")], ["stdout and exit code of the command-line tool"])
p("P23", "Regexes, globs, Base64 and URL-escapes use exactly the settings they are given",
  "A regex written with a pattern and settings (flags, line terminator) matches, on every use and however often it was used, cloned or shared before, exactly as that pattern with those settings, and is an error on every use if it does not compile; written as bare text it has the default settings (Unicode on, line terminator LF, all else off). Setting, adding, removing and reading flags by letter treat each letter as its own setting (i, R, s, x, m, o, U, u) and leave the others: reading the letters and setting them again gives the same settings. Two regexes are equal when their patterns and settings are. Base64 uses the configured alphabet and padding (by default URL-safe, padded when encoding, indifferent when decoding); URL-escaping keeps exactly the characters of encodeURIComponent (default), encodeURI or the alphanumerics; a glob matches texts and paths with its own options.",
  ["inputs", "configurations"], "All patterns, settings, flag texts, inputs and orders of use.",
  "Tests use each with a single setting or not at all.",
  ["src/glue/regex.rs", "src/glue/regex/regex_parts.rs", "src/glue/base64.rs", "src/glue/glob.rs", "src/types/string_modification.rs"], [("lazily compiled regex", "src/glue/regex.rs: RegexWrapper::get, TryFrom"), ("settings of a regex", "src/glue/regex/regex_parts.rs: RegexParts::build, RegexConfig::{set,add,remove,get}_flags"), ("Base64 engines", "src/glue/base64.rs: Base64Config::build"), ("escape sets", "src/types/string_modification.rs: UrlEncodeAlphabet::get"), ("globs", "src/glue/glob.rs: GlobWrapper::matches, matches_path")], ["RegexWrapper::get", "RegexConfig::get_flags", "StringModification::apply", "GlobWrapper::matches"])
p("P24", "Configurations mean the same in every written form, and read back as written",
  "Where a configuration or task expects a structured value, a bare text means the documented structure: a text source is that text, a flag or variable is that name in the parameters, a query parameter is its first occurrence, a command is that program without arguments, a shared call is that name without arguments, a proxy is that URL for all requests without authentication, a cache path is that file or, for :memory:, memory, a modification is the variant of that name (with default settings, if it has any), a regex or glob is that pattern with default settings, a JSON body value is that text, a task is that URL; null is 'no text' for a text source and null for a JSON body value. A text that is none of these is an error, never something else. A field that is left out has its documented default, and writing leaves a field out only when it has that default. Writing any configuration, parameters override, task or part of one and reading the result gives an equal value (except custom functions, which cannot be written, an optional text or map fallback holding the no-text source, and retry delays too long for a float of seconds).",
  ["inputs", "configurations"], "All texts, all values of every type a configuration may contain.",
  "Tests read a few dozen hand-written configurations and hardly ever write one.",
  ["src/types", "src/glue", "src/util.rs", "src/util/macros.rs"], [("text or structure", "src/util/macros.rs: string_or_struct_magic and the FromStr impls it calls"), ("text sources and null", "src/types/string_source.rs: Serialize, Deserialize, From"), ("JSON body values", "src/glue/json.rs: Serialize, Deserialize, From<Value>"), ("defaults and left-out fields", "serde attributes of every configuration type; src/util.rs: is_default, get_true, is_true, get_false, is_false"), ("cache paths", "src/glue/caching.rs: CachePath"), ("headers, glob patterns and partitionings", "src/glue.rs: serde_headermap, serde_headervalue; src/glue/glob.rs; src/types/named_partitioning.rs: Serialize, NamedPartitioningVisitor")], ["serde_json::from_str / to_string of Config and its parts", "FromStr of the short forms", "ParamsDiff, TaskConfig and Tests files"])
p("P25", "The tool runs with exactly the configuration asked for, and its tests tell the truth",
  "The tool cleans with exactly the configuration file it was given (the built-in configuration if none), with the override files applied in the order they were given, each as often as it was given, and the override described by the other options applied last; with the given cache path, else the configuration's; with the given job context, else an empty one. If a configuration, override, job context or test file that was asked for cannot be read or does not describe what it should, that is an error: nothing is cleaned and nothing is printed as a result. Asking for tests or for the suitability check cleans nothing. Running tests succeeds exactly when, for every test of every set of every file, the test's task succeeds and gives exactly the expected URL, run with that configuration plus its own set's override, in its own set's job context; one set's override and cache do not affect another set's.",
  ["inputs", "configurations"], "All command lines, all contents of the files they name, all numbers of overrides, test files, sets and tests.",
  "The existing tests call each piece on a handful of inputs; none runs overrides in sequence or checks that a wrong test fails.",
  ["src/main.rs", "src/testing.rs", "src/types/config.rs", "src/types/job/job.rs"], [("assembling the run", "src/main.rs: main up to thread::scope"), ("loading configurations", "src/types/config.rs: Config::load_from_file, get_default, load_or_get_default and their no_cache forms, run_tests"), ("tests", "src/testing.rs: Tests::do, TestSet::do"), ("tasks of a job", "src/types/job/job.rs: JobConfig::new_task, Job::iter")],
  "Standard output and exit status of the command-line tool; the configuration and job context its worker threads use.")
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
