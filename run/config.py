A_COMMON = ["Verus encodes the extracted Rust faithfully; machine integers are checked for overflow (not treated as mathematical)",
            "partial correctness: termination of the recursive interpreters is not claimed (the replay harness watches for hangs)"]
PROPS = {
 "P05": dict(plans=[("util", r".")], assumptions=A_COMMON + ["std iterators are finite and yield their items in order (eager model)", "Vec lengths are at most isize::MAX"]),
}
PROPS["P05"]["note"] = "Unbounded proof (all lists, all machine integers) of the index arithmetic and the segment edit functions, extracted from /repo each run; trusts the eager iterator model and Verus/z3. The callers that feed segments in (URL parts, text edits) are checked by bounded replay."
A_HOST = A_COMMON + ["assumed contract on psl: suffix_str/domain_str return label-aligned suffixes of the host without one trailing dot, the registrable domain at least one dot longer than the suffix (checked on every replayed host)",
  "assumed contract on url: setters other than set_host/set_ip_host keep the host; failed setters change nothing; host_str is the domain text (checked by replay)", "str::get, strip_suffix, format! modelled on character sequences with UTF-8 byte lengths"]
PROPS["P01"] = dict(plans=[("host", r"^(?!BetterUrl::set_)")], assumptions=A_HOST, note="Unbounded proof that the stored offsets cut exactly the specified parts out of any host, that the parts rebuild the host (lemma partition), and that no getter can panic; extracted from /repo each run. Trusts the psl/url contracts (checked by replay), Verus/z3. UrlPart::get of host parts: P04's proof and bounded replay.")
PROPS["P02"] = dict(plans=[("host", r"^(?!BetterUrl::(domain|subdomain|reg_domain|domain_suffix|not_domain_suffix|domain_middle|fqdn_period)$)")], assumptions=A_HOST, note="Unbounded proof of a class invariant (the cached analysis is the analysis of the URL's current host): every constructor establishes it and every mutating method preserves it, on success and on failure, so it holds after every history. Trusts the url crate's setter contracts; histories are also replayed against re-parsed URLs.")
PROPS["P03"] = dict(plans=[("host", r"^(?!HostDetails::ip)")], assumptions=A_HOST, note="Unbounded proof that each domain-part writer hands exactly the specified composed host to the url crate, or errors with the URL unchanged, for every URL and value. Trusts url's set_host (all-or-nothing) and the psl contract; replay compares with an independent composition.")
A_PART = A_HOST + ["assumed contracts on url: component readers/setters, path segment iterator, query pair iterator (each the named component); form_urlencoded serialisation of pairs reads back as the same pairs (checked by replay)", "path_segments_mut().pop_if_empty().push(x) is taken as one url-crate operation", "derefs BetterUrl -> Url are taken as the field access verified in plan host"]
PROPS["P04"] = dict(plans=[("url_part", r"^(UrlPart|BetterUrl)")], assumptions=A_PART, note="Unbounded proof, arm by arm over all 35 variants of both dispatch functions, that reading yields exactly the named component and that writing performs exactly the specified single-component update, or errors with the URL unchanged; extracted each run. Trusts the url crate's own component setters/readers; those are exercised by bounded replay against an independent update.")
PROPS["P06"] = dict(plans=[("url_part", r"QueryParam")], assumptions=A_PART, note="Unbounded proof (loop invariants, iterator-chain contracts with closure specs) that lookup finds exactly the named occurrence and that set replaces/removes/appends/refuses exactly as stated, with lemma set_then_get: the value reads back and every other occurrence is unchanged. Trusts form_urlencoded round trip and the eager iterator model; replay compares decoded pair lists.")
PROPS["P05"]["plans"].append(("url_part", r"Segment\]"))
PROPS["P01"]["plans"].append(("url_part", r"^UrlPart::get\[(Domain|Subdomain|RegDomain|NotDomainSuffix|DomainMiddle|DomainSuffix|FqdnPeriod)\]"))
A_SEM = A_PART + ["evaluation of a sub-term is a function of the term and the state it is given (no hidden state): the denotations den_* are uninterpreted; each interpreter arm is proved to be their one-step unfolding, so the whole-program statement follows by induction on the term",
  "effects outside the process (HTTP requests, commands, the cache, the clock, the environment) are taken as functions of the state",
  "clone gives an equal value; == on URLs and scratchpads compares their contents; sets and maps keyed by text behave as mathematical sets and maps"]
MAP = "Mapper::apply"
LEAF_Q = r"^Mapper::apply\[(RemoveQuery\w*|AllowQuery\w*|GetUrlFromQueryParam|CopyPart|MovePart)\]$"
PROPS["P07"] = dict(plans=[("mapper", LEAF_Q)], assumptions=A_SEM, note="Unbounded proof (loop invariants over any number of pairs, closure contracts for the iterator chains) that each query filter leaves exactly the pairs that should remain, in order, drops the query when none is left, and leaves the URL alone on error; extracted each run. Trusts url/form_urlencoded's pair iterator and serializer contracts, checked by replay; StringModification's text-level filters are covered by bounded replay against an independent filter.")
PROPS["P08"] = dict(plans=[("rule", r"^Rule"), ("mapper", r"^Mapper::apply\[(None|Debug|If|ConditionChain|All|PartMap|StringMap|Rule|Rules|Common|Error)\]$")], assumptions=A_SEM, note="Unbounded proof, arm by arm, that each control-flow rule and mapper is the one-step unfolding of its meaning: lists in order up to the first error, exactly the selected branch or entry, errors of the selector reported with nothing applied. Trusts that sub-evaluations are functions of term and state; replay runs whole random programs against an independent interpreter.")
PROPS["P09"] = dict(plans=[("mapper", r"^Mapper::apply\[(IgnoreError|RevertOnError|TryElse|FirstNotError|SetPart|ModifyPart|CopyPart|MovePart|SetHost|Join|SetScratchpad\w*|ModifyScratchpadVar|RemoveQuery\w*|AllowQuery\w*|GetUrlFromQueryParam|ExpandRedirect|CacheUrl)\]$")], assumptions=A_SEM, note="Unbounded proof that the recovery wrappers restore or keep URL and scratch values as stated and that every leaf mapper is all-or-nothing (the exact new state on success, the old state on error). ExpandRedirect and CacheUrl take the network's and the cache's answers as functions of what is asked. Trusts that sub-evaluations are functions of term and state; replay runs whole programs against an independent interpreter.")
PROPS["P10"] = dict(plans=[("rule", r"^Rule(s::apply|::apply\[(Repeat|Rules)\])$"), ("mapper", r"^Mapper::apply\[Retry\]$")], assumptions=A_SEM, note="Unbounded proof (loop invariant over any limit) that Repeat equals iterating its body until a round leaves URL and scratch values unchanged or the limit is reached, errors reported at once; and that Retry stops at the first success or the limit. Trusts that == on URLs/scratchpads compares contents; replay runs programs against an independent loop.")
CONN = r"(Always|Never|Debug|If|Not|All|Any|TreatErrorAsPass|TreatErrorAsFail|TryElse|FirstNotError|Error|Common|PartMap|StringMap)"
P11T = r"\[" + CONN + r"\]$"
PROPS["P11"] = dict(plans=[("cond", r"^Condition.*" + P11T), ("loc", r"^StringLocation.*" + P11T), ("char", r"^CharMatcher.*" + P11T), ("mat", r"^StringMatcher.*(" + P11T + r"|\[Modified\]$)")], assumptions=A_SEM + ["the error filter of condition wrappers answers as a function of the filter and the error"],
  note="Unbounded proof (loop invariants over lists of any length), arm by arm in all four interpreters, that each connective is the one-step unfolding of the same logic: left to right, stopping at the deciding operand, errors replaced only by the wrappers that say so; the state is passed by shared reference. Induction on the term gives whole programs. Trusts Verus/z3 and the modelled containers.")
PROPS["P12"] = dict(plans=[("cond", r"^Condition::satisfied_by\[(?!" + CONN + r"\])"), ("scope", r"^(Flag|Var)"), ("host", r"^BetterUrl::(domain|subdomain|reg_domain|domain_suffix|not_domain_suffix|domain_middle|fqdn_period)$|^HostDetails")], assumptions=A_SEM,
  note="Unbounded proof, arm by arm, that each condition atom is true exactly when the named component (whose reading is verified in plans host and url_part) equals the stated value, absence included, and that flags and variables are looked up in exactly the named scope. Trusts the url/psl contracts and the modelled containers; text and locator tests are P13's.")
PROPS["P13"] = dict(plans=[("loc", r"^StringLocation.*\[(?!" + CONN + r"\])"), ("char", r"^CharMatcher.*\[(?!" + CONN + r"\])"), ("mat", r"^StringMatcher.*\[(?!" + CONN + r"\])"), ("util", r"neg_|range")], assumptions=A_SEM + ["std: find/contains/starts_with/ends_with/split/get on str and the char classes mean what std documents, modelled on character sequences with UTF-8 byte lengths", "the regex and glob crates' answers are taken as functions of pattern and text"],
  note="Unbounded proof, arm by arm, that each text test, locator and character test computes exactly its stated answer (index arithmetic included: out-of-range or mid-character ranges are errors, never panics), for every haystack, needle and signed index. Trusts std's string searching, std's char classes, regex and glob crates.")
PROPS["P16"] = dict(plans=[("scope", r"."), ("args", r"CommonCallArgs"), ("task", r"."), ("mapper", r"^Mapper::apply\[(SetScratchpad\w*|ModifyScratchpadVar|Common)\]$"), ("rule", r"^Rule::apply\[Common\]$"), ("cond", r"^Condition::satisfied_by\[(Common|FlagIsSet|VarIs)\]$"), ("mat", r"\[Common\]$")], assumptions=A_SEM,
  note="Unbounded proof that each flag/variable reference reads the scope it names, scratch writes touch one name (frame conditions over all others), shared calls run with exactly the arguments built in the caller's scope while the caller's own stay, and every task starts with an empty scratch state and the configured parameters. Trusts the modelled containers and clone; replay compares whole programs with an independent interpreter.")
PROPS["P14"] = dict(plans=[("sm", r"^StringModification")], assumptions=A_SEM + ["std: replace/replacen, case mapping, UTF-8 encoding/decoding; the regex, percent-encoding, base64 and serde_json crates: each answer is taken as a function of the arguments (replay compares percent and base64 coding with independent implementations)", "the JavaScript/HTML decoders are P19's"],
  note="Unbounded proof, arm by arm over every variant, that each edit yields exactly the stated text for any text, index and range (byte arithmetic included; std calls that would panic are excluded by their preconditions), that a failing edit leaves the text unchanged, and that lists are left-to-right composition up to the first error (loop invariants). Trusts std text functions and the codec crates.")
PROPS["P07"]["plans"].append(("sm", r"QueryParamsMatching\]$"))
PROPS["P09"]["plans"].append(("sm", r"\[(IgnoreError|RevertOnError|TryElse|FirstNotError)\]$"))
PROPS["P16"]["plans"].append(("sm", r"\[Common\]$"))
PROPS["P15"] = dict(plans=[("ss", r"^StringSource"), ("scope", r"."), ("sem", r"^Map")], assumptions=A_SEM + ["std: split_once, joining, gathering an iterator of results; the regex crate; HTTP requests and the cache's SQL are taken as functions of the request and the state"],
  note="Unbounded proof, arm by arm over every built variant, that each source yields exactly the stated text, absence or error (which error, for the control-flow variants) as a function of its sub-evaluations; joins for any number of parts. HTTP, command, cache storage and regex answers are assumed to be functions of their inputs here (P22 and P20 verify how they are asked).")
PROPS["P16"]["plans"].append(("ss", r"\[(Common|IfFlag|Var)\]$"))
PROPS["P17"] = dict(plans=[("params", r".")], features="full", assumptions=A_COMMON + ["HashSet/HashMap keyed by text behave as sets and maps, hand out each entry once, and extend/retain/entry/get_mut mean what std documents; Vec likewise", "derive(Default) and derive(Clone) mean what Rust documents", "HeaderMap::extend is taken as a function of both header maps (replay: it replaces the named headers)", "clap delivers each occurrence of an option as one element of the parsed field (replay parses real command lines)"],
  note="Unbounded proof (ten loop invariants in apply, four in build, closure contracts) that applying an override gives exactly the stated flags, variables, sets and maps per name and changes nothing else, that client overrides replace exactly the given settings, and that built overrides contain every occurrence of every option or report the malformed one. Trusts the collection models and clap; replay parses real command lines and compares with an independent calculation.")
PROPS["P18"] = dict(plans=[("part", r"."), ("sem", r"^Map")], assumptions=A_COMMON + ["HashMap keyed by text behaves as a map; Arc<str> compares by text", "the serde visitor hands the declared entries to try_from_iter in order (replay reads partitionings from JSON)"],
  note="Unbounded proof (two nested loop invariants) that a partitioning is accepted exactly when names are distinct and no element is declared twice, that lookups then answer with the declaring partition and only that, and that map lookups pick the key's entry, the absence entry or the default as stated. Trusts the map model; replay reads declarations from JSON too.")
PROPS["P19"] = dict(plans=[("dec", r"."), ("sm", r"\[(GetJsStringLiteralPrefix|UnescapeHtmlText|GetHtmlAttribute)\]$")], assumptions=A_COMMON + ["std: char classes, char::from_u32, str::chars/char_indices/find/strip_prefix and from_str_radix mean what std documents, modelled on character sequences with UTF-8 byte lengths", "the named character reference table (parse_char_ref) is an uninterpreted table in the proof; replay compares all 2125 names with the standard's list"],
  note="Unbounded proof (loop invariants over texts of any length) that the three hand-written state machines compute exactly the recursively specified decodings, including every byte index and slice. Trusts the std text model; the table of 2125 named references is compared exhaustively by replay, not proved.")
PROPS["P20"] = dict(plans=[("cache", r"."), ("mapper", r"^Mapper::apply\[(CacheUrl|ExpandRedirect)\]$"), ("ss", r"^StringSource::get\[Cache\]$")], features="full", assumptions=A_COMMON + ["SQLite through diesel: a query answers rows of the table that satisfy its condition (none only if none does), an update changes exactly the selected rows and reports how many, an insert adds one row, a failed statement changes nothing, the initialising command creates the table if it is missing (replay runs real databases)", "holding a mutex is exclusive access; between disconnecting and reconnecting the file keeps its rows (replay reopens files)", "in the actions that use the cache, the network's and the cache's answers are functions of exactly what is asked (category, key, value; client settings, URL, headers)", "two processes writing one file at the same time are outside the contract"],
  note="Unbounded proof that a write makes the key's entry the written value and leaves every other entry, that a read answers that entry, and (lemma history) that after any sequence of writes each key holds the last one; and that cached actions, cached sources and redirect expansion look up, compute and store exactly what they should. Trusts the contract of SQLite/diesel statements; replay runs real in-memory and file databases and a local HTTP server.")
PROPS["P22"] = dict(plans=[("http", r"."), ("client", r"."), ("ss", r"^StringSource::get\[(HttpRequest|CommandOutput)\]$")], features="full", assumptions=A_COMMON + ["reqwest: a request builder carries exactly what it is given (client settings, method, URL, each header, the last body), sending it is a function of that, and a response's text, headers, cookies and URL are what the server answered (replay runs loopback servers and proxies)", "std::process: a command carries exactly the program, arguments, folder, environment and streams it is given, and its output and exit status are a function of those and its input", "CommandConfig's helper feed (gives a child its input while collecting its output, on threads) is assumed to do that; replay runs it with inputs longer than a pipe", "serde deserialises configurations as declared (replay reads all its configurations from JSON)"],
  note="Unbounded proof (loop invariants over any number of headers, form fields, arguments and environment variables; closure contracts for JSON bodies of any size) that the request or command handed to reqwest or std::process is exactly the configured one, that absent headers, fields and variables are left out and absent operands are errors, and that the answer is exactly the part the handler names; and that clients carry the parameters' settings with the request's overrides applied to a copy. Trusts reqwest, std::process and the thread that feeds a command; replay runs them for real.")
PROPS["P21"] = dict(plans=[("pipe", r"."), ("task", r".")], cli=True, assumptions=A_COMMON + ["std::sync::mpsc channels are first-in first-out, deliver everything sent, and report an error to the receiver once the senders are gone and all was taken; threads that do not end by themselves are scheduled and no thread panics (a thread's contract is about what its own channels carry, so it holds for every interleaving)", "main's wiring is not under contract: worker i gets the i-th input receiver and output sender, all threads of the scope run, and the number of threads is as asked (replay runs the tool with 1 to 9 threads)", "standard input's lines and the argument URLs are what the process was given; locking the two flags is exclusive access; standard output shows what print! is given", "a serialised URL contains no line feed (url crate)", "serde: a JSON line is read as a task as declared (replay sends JSON lines)"],
  note="Unbounded proof, function by function on the bodies of main's three thread closures: the reader deals the lines out to the workers in turn, each worker answers each of its lines once, in order, with that line's own result (fresh task state, the shared configuration), the printer takes the answers in turn and prints exactly one item each (plain and JSON) until none is left; lemmas merge_dealt and one_result_per_line compose them for any number of threads and lines, so the result does not depend on the schedule. Trusts mpsc channels and main's wiring; replay runs the real tool.")
PROPS["P23"] = dict(plans=[("leaf", r".")], assumptions=A_COMMON + ["the regex crate: a builder is the record of its settings (and starts from the documented defaults), and what a set of settings compiles to is a function of it; OnceLock holds nothing but what it was given; glob, base64 and percent-encoding crates: matching, encoding and decoding are functions of the pattern, options, alphabet, padding and set they are given (compared with independent references in the replay)", "derived Clone, PartialEq, Default and serde implementations of the settings do what derive documents (written defaults are exercised by the replay)"],
  note="Unbounded proof: every flag letter stands for its own setting in set, add, remove and get (any text, any settings), a regex wrapper yields on every use the regex of exactly its own pattern and settings (data-structure invariant: what is compiled belongs to the parts) and an error exactly when they do not compile, conversions keep or default the settings, Base64 engines have exactly the configured alphabet and padding, the escape sets are exactly those of encodeURIComponent, encodeURI and non-alphanumerics, and globs match with their own options. Written forms (JSON) and threads sharing a wrapper: bounded replay.")
PROPS["P24"] = dict(plans=[("written", r"."), ("part", r"NamedPartitioning@Serialize|partition_names"), ("pipe", r"TaskConfig"), ("leaf", r"(RegexParts|GlobWrapper)@(From|FromStr|TryFrom)|RegexConfig@Default")], features="full", assumptions=A_COMMON + ["serde: a self-describing reader calls visit_str for a text, visit_unit or visit_none for null, visit_bool for a Boolean; derived code writes a variant that carries nothing as its word (its name or `rename`), reads its name, `rename` and `alias` words as it, fills a left-out field by calling what `default` names and leaves a field out exactly when what `skip_serializing_if` names answers true; structures and variants with data are written and read field by field (their round trip is replayed, not proved)", "Default of opaque field types is a function; PartialEq compares by value", "the url crate parses proxies; serde_json numbers convert as documented", "the http crate: a text that fits is a header value byte for byte, header names hold the form that compares, headers built from a map naming each once hold exactly its entries; glob patterns keep their text"],
  note="Unbounded proof for every text: each FromStr, From and visitor of the crate's short written forms gives exactly its documented structure or an error, each hand-written Serialize reads back as what was written (null included), the words of every variant without data are read as that variant only, every field that may be left out has its documented default (functions generated from the serde attributes themselves) and is left out only then, JSON values convert structurally. The derived field-by-field reading and writing is bounded (15 000 read-write-read cases per run).")
PROPS["P25"] = dict(plans=[("setup", r".")], cli=True, features="full", assumptions=A_COMMON + ["reading a file and reading JSON text are functions of the file and the text (what a JSON text describes is P24's; that URLs in it are analysed is P02's); clap fills the options structure with what the command line says; OnceLock holds what it was given; Cow::to_mut gives the value behind it, copied if it was borrowed; Iterator::{map, zip, enumerate, unzip, collect} do as documented; a failed assertion or expect ends the process with an error (a panic); what an override does to the parameters is P17's and P18's, what a cache path opens is P20's, what a task does is the step contracts' (P07 to P16); Suitability::assert_suitability is a function of the configuration"],
  note="Unbounded proof, for every command line, every file content and every number of overrides, sets and tests: what main hands to its threads is exactly the configuration file (or the built-in configuration) with the override files applied in the order given and the options' override last, the given cache path or else the configuration's, the given job context or else the empty one, as many connected channel pairs as threads asked for (at least one), and it hands over nothing when checks were asked for; main returns an error only when something named could not be read; a process that ends after checks did so because each asked check passed; running tests returns exactly when every test's task, done with that configuration and its own set's override, context and a fresh cache, succeeds with the expected URL (both directions, through the world in which nothing may panic). main's body up to thread::scope is the verified text. Bounded replay: the command-line tool with seeded files, options and tests.")
NOT_APPLICABLE = {}
