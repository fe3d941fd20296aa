"""refac.py [ID...]: behaviour-preserving edits the checks have to survive without a false alarm (run in a scratch clone)."""
import os, subprocess, shutil, sys
W = os.environ.get("RW", "/tmp/rw2")
UP = "src/types/url_part.rs"; UT = "src/util.rs"; MP = "src/types/rules/mappers.rs"; RU = "src/types/rules.rs"; CO = "src/types/rules/conditions.rs"
SL = "src/types/string_location.rs"; SMT = "src/types/string_matcher.rs"; SMO = "src/types/string_modification.rs"; SS = "src/types/string_source.rs"
BU = "src/types/better_url.rs"; DO = "src/types/better_url/host_details/domain.rs"; PA = "src/types/config/params.rs"; MA = "src/types/map.rs"; NP = "src/types/named_partitioning.rs"
JS = "src/glue/parse/js/string_literal_prefix.rs"; UN = "src/glue/parse/html/unescape.rs"; GA = "src/glue/parse/html/get_attribute.rs"; VA = "src/types/flag_var_thing/var.rs"; FL = "src/types/flag_var_thing/flag.rs"
R = {}
def r(id, props, *edits): R[id] = (props.split(), edits)
r("host-helper", "P02", (BU, "{self.url.set_host(host)?; self.host_details = self.url.host().map(|host| HostDetails::from_host(&host)); Ok(())}", "{self.url.set_host(host)?; self.refresh_host_details(); Ok(())}"),
  (BU, "    pub fn set_domain_host(&mut self", "    fn refresh_host_details(&mut self) {\n        self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));\n    }\n\n    pub fn set_domain_host(&mut self"))
r("domain-let", "P01", (DO, """        Self {
            middle_start: psl::domain_str(domain).map(|notsub| (notsub.as_ptr() as usize) - (domain.as_ptr() as usize)),
            suffix_start: psl::suffix_str(domain).map(|suffix| (suffix.as_ptr() as usize) - (domain.as_ptr() as usize)),
            fqdn_period : domain.strip_suffix('.').map(|x| x.len())
        }""", """        let start = domain.as_ptr() as usize;
        let fqdn_period = domain.strip_suffix('.').map(|x| x.len());
        Self {
            middle_start: psl::domain_str(domain).map(|notsub| notsub.as_ptr() as usize - start),
            suffix_start: psl::suffix_str(domain).map(|suffix| suffix.as_ptr() as usize - start),
            fqdn_period
        }"""))
r("fqdn-len", "P01", (DO, "fqdn_period : domain.strip_suffix('.').map(|x| x.len())", "fqdn_period : if domain.ends_with('.') {Some(domain.len() - 1)} else {None}"))
r("sub-reorder", "P03", (BU, """                (Some(to), Some(rd), false) => self.set_domain_host(&format!("{to}.{rd}"))?,
                (Some(to), Some(rd), true ) => self.set_domain_host(&format!("{to}.{rd}."))?,
                (Some(_ ), None    , false) => Err(SetSubdomainError::MissingRegDomain)?,
                (Some(_ ), None    , true ) => Err(SetSubdomainError::MissingRegDomain)?,
                (None    , Some(rd), false) => self.set_domain_host(&format!("{rd}"))?,
                (None    , Some(rd), true ) => self.set_domain_host(&format!("{rd}."))?,
                (None    , None    , false) => Err(SetSubdomainError::MissingRegDomain)?,
                (None    , None    , true ) => Err(SetSubdomainError::MissingRegDomain)?""", """                (_       , None    , _    ) => Err(SetSubdomainError::MissingRegDomain)?,
                (Some(to), Some(rd), fqdn ) => {
                    let dot = if fqdn {"."} else {""};
                    self.set_domain_host(&format!("{to}.{rd}{dot}"))?
                },
                (None    , Some(rd), true ) => self.set_domain_host(&format!("{rd}."))?,
                (None    , Some(rd), false) => self.set_domain_host(&rd.to_string())?"""))
r("part-or", "P04", (UP, "            (Self::FqdnPeriod     , Some(\".\")) => url.set_fqdn(true)?,\n            (Self::FqdnPeriod     , None     ) => url.set_fqdn(false)?,\n            (Self::FqdnPeriod     , Some(_)  ) => Err(UrlPartSetError::FqdnPeriodMustBeNoneOrPeriod)?,",
  "            (Self::FqdnPeriod     , None     ) => url.set_fqdn(false)?,\n            (Self::FqdnPeriod     , Some(x)  ) => if x == \".\" {url.set_fqdn(true)?} else {Err(UrlPartSetError::FqdnPeriodMustBeNoneOrPeriod)?},"))
r("part-port", "P04", (UP, "Self::Port => Cow::Owned(url.port()?.to_string()),", "Self::Port => {\n                let port = url.port()?;\n                Cow::Owned(port.to_string())\n            },"))
r("rel-ifs", "P05", (UT, """    match (neg_index(n, segments.len()), to, rel) {
        (Some(fixed_n), Some(to), SegRel::Before) => segments.insert(fixed_n, to),
        (Some(fixed_n), Some(to), SegRel::At    ) => segments[fixed_n]=to,
        (Some(fixed_n), Some(to), SegRel::After ) => segments.insert(fixed_n + 1, to),

        (Some(fixed_n), None    , SegRel::At) => {let _ = segments.remove(fixed_n);}
        (Some(_      ), None    , _         ) => {},

        (None         , Some(_ ), _) => Err(SegmentNotFound)?,
        (None         , None    , _) => {}
    }

    Ok(segments)""", """    let index = neg_index(n, segments.len());
    if let Some(to) = to {
        let fixed_n = index.ok_or(SegmentNotFound)?;
        match rel {
            SegRel::Before => segments.insert(fixed_n, to),
            SegRel::At     => segments[fixed_n] = to,
            SegRel::After  => segments.insert(fixed_n + 1, to)
        }
    } else if let (Some(fixed_n), SegRel::At) = (index, rel) {
        segments.remove(fixed_n);
    }
    Ok(segments)"""))
r("neg-nth-match", "P05 P13", (UT, """    if i<0 {
        let temp=iter.into_iter().collect::<Vec<_>>();
        let fixed_i=neg_index(i, temp.len())?;
        temp.into_iter().nth(fixed_i)
    } else {
        iter.into_iter().nth(i as usize)
    }""", """    match usize::try_from(i) {
        Ok(i) => iter.into_iter().nth(i),
        Err(_) => {
            let items = iter.into_iter().collect::<Vec<_>>();
            let fixed_i = neg_index(i, items.len())?;
            items.into_iter().nth(fixed_i)
        }
    }"""))
r("qp-nth", "P06", (UP, "Some(pairs.into_iter().filter(|(name, _)| name.as_ref()==self.name).enumerate().find(|(i, _)| *i==self.index)?.1.1)", "pairs.into_iter().filter(|(name, _)| name.as_ref()==self.name).nth(self.index).map(|(_, value)| value)"))
r("qp-loop", "P06", (UP, """        for (i, (name, _)) in pairs.iter_mut().enumerate() {
            if *name == self.name {
                if found_matches == self.index {
                    matched_index = Some(i);
                    break;
                }""", """        for (i, pair) in pairs.iter().enumerate() {
            if pair.0 == self.name {
                if found_matches == self.index {
                    matched_index = Some(i);
                    break;
                }"""))
r("rq-helper", "P07", (MP, """            Self::RemoveQueryParams(names) => if let Some(query_len) = task_state.url.query().map(|x| x.len()) {
                let new_query=form_urlencoded::Serializer::new(String::with_capacity(query_len)).extend_pairs(task_state.url.query_pairs().filter(|(name, _)| !names.contains(name.as_ref()))).finish();
                task_state.url.set_query((!new_query.is_empty()).then_some(&new_query));
            },""", """            Self::RemoveQueryParams(names) => if let Some(query_len) = task_state.url.query().map(|x| x.len()) {
                let mut serializer = form_urlencoded::Serializer::new(String::with_capacity(query_len));
                for (name, value) in task_state.url.query_pairs() {
                    if names.contains(name.as_ref()) {continue;}
                    serializer.append_pair(&name, &value);
                }
                let new_query = serializer.finish();
                task_state.url.set_query(if new_query.is_empty() {None} else {Some(&new_query)});
            },"""))
r("gq-iflet", "P07", (MP, """                match task_state.url.query_pairs().find(|(param_name, _)| *param_name==name) {
                    Some((_, new_url)) => {*task_state.url=Url::parse(&new_url)?.into()},
                    None => Err(MapperError::CannotFindQueryParam)?
                }""", """                let new_url = task_state.url.query_pairs().find(|(param_name, _)| *param_name==name).map(|(_, value)| value.into_owned()).ok_or(MapperError::CannotFindQueryParam)?;
                *task_state.url = Url::parse(&new_url)?.into();"""))
r("all-try", "P08", (MP, """                for mapper in mappers {
                    mapper.apply(task_state)?;
                }
            },
            Self::PartMap""", """                mappers.iter().try_for_each(|mapper| mapper.apply(task_state))?;
            },
            Self::PartMap"""))
r("chain-find", "P08", (MP, """            Self::ConditionChain(chain) => for link in chain {
                if link.condition.satisfied_by(&task_state.to_view())? {
                    link.mapper.apply(task_state)?;
                    break;
                }
            },""", """            Self::ConditionChain(chain) => {
                for link in chain {
                    if !link.condition.satisfied_by(&task_state.to_view())? {continue;}
                    return link.mapper.apply(task_state);
                }
            },"""))
r("rules-idx", "P08", (RU, """        for rule in &self.0 {
            rule.apply(task_state)?;
        }
        Ok(())""", """        for rule in self.0.iter() {
            let result = rule.apply(task_state);
            if result.is_err() {return result;}
        }
        Ok(())"""))
r("revert-match", "P09", (MP, """                if let e @ Err(_) = mapper.apply(task_state) {
                    *task_state.url = old_url;
                    *task_state.scratchpad = old_scratchpad;
                    e?;
                }""", """                match mapper.apply(task_state) {
                    Ok(()) => {},
                    Err(e) => {
                        *task_state.scratchpad = old_scratchpad;
                        *task_state.url = old_url;
                        return Err(e);
                    }
                }"""))
r("move-let", "P09", (MP, """                to.set(temp_url_ref, from.get(temp_url_ref).map(|x| x.into_owned()).as_deref())?;
                from.set(&mut temp_url, None)?;""", """                let value = from.get(temp_url_ref).map(|x| x.into_owned());
                to.set(temp_url_ref, value.as_deref())?;
                from.set(temp_url_ref, None)?;"""))
r("repeat-loop", "P10", (RU, """                let mut previous_url;
                let mut previous_scratchpad;
                for _ in 0..*limit {
                    previous_url = task_state.url.clone();
                    previous_scratchpad = task_state.scratchpad.clone();
                    rules.apply(task_state)?;
                    if task_state.url == &previous_url && task_state.scratchpad == &previous_scratchpad {break;}
                }""", """                let mut remaining = *limit;
                while remaining > 0 {
                    remaining -= 1;
                    let previous_url = task_state.url.clone();
                    let previous_scratchpad = task_state.scratchpad.clone();
                    rules.apply(task_state)?;
                    let changed = task_state.url != &previous_url || task_state.scratchpad != &previous_scratchpad;
                    if !changed {break;}
                }"""))
r("retry-if", "P10", (MP, """                    match mapper.apply(task_state) {
                        Ok(()) => return Ok(()),
                        #[allow(clippy::arithmetic_side_effects, reason = "`i` is never 255 and therefore never overflows.")]
                        e @ Err(_) if i+1==*limit => e?,
                        Err(_) => {std::thread::sleep(*delay);}
                    }""", """                    let result = mapper.apply(task_state);
                    if result.is_ok() || i+1==*limit {return result;}
                    std::thread::sleep(*delay);"""))
r("cond-any", "P11", (CO, """                for condition in conditions {
                    if condition.satisfied_by(task_state)? {
                        return Ok(true);
                    }
                }
                false""", """                let mut found = false;
                for condition in conditions {
                    if condition.satisfied_by(task_state)? {
                        found = true;
                        break;
                    }
                }
                found"""))
r("loc-tryelse", "P11", (SL, "Self::TryElse{r#try, r#else} => r#try.satisfied_by(haystack, needle).or_else(|try_error| r#else.satisfied_by(haystack, needle).map_err(|else_error| StringLocationError::TryElseError {try_error: Box::new(try_error), else_error: Box::new(else_error)}))?,",
  """Self::TryElse{r#try, r#else} => match r#try.satisfied_by(haystack, needle) {
                Ok(x) => x,
                Err(try_error) => r#else.satisfied_by(haystack, needle).map_err(|else_error| StringLocationError::TryElseError {try_error: Box::new(try_error), else_error: Box::new(else_error)})?
            },"""))
r("cond-hostip", "P12", (CO, "matches!(task_state.url.host_details(), Some(HostDetails::Ipv4(_) | HostDetails::Ipv6(_)))", "match task_state.url.host_details() {\n                Some(HostDetails::Ipv4(_)) | Some(HostDetails::Ipv6(_)) => true,\n                _ => false\n            }"))
r("cond-oneof", "P12", (CO, "Self::HostIsOneOf(hosts) => task_state.url.host_str().is_some_and(|url_host| hosts.contains(url_host)),", "Self::HostIsOneOf(hosts) => match task_state.url.host_str() {\n                Some(url_host) => hosts.contains(url_host),\n                None => false\n            },"))
r("allchars", "P13", (SMT, """                for char in haystack.chars() {
                    if !matcher.satisfied_by(char)? {
                        return Ok(false);
                    }
                }
                true""", """                let mut all = true;
                for char in haystack.chars() {
                    if !matcher.satisfied_by(char)? {
                        all = false;
                        break;
                    }
                }
                all"""))
r("segstart", "P13", (SMT, """                haystack.strip_prefix(get_str!(value, task_state, StringMatcherError))
                    .is_some_and(|x| x.strip_prefix(split).is_some())""", """                haystack.strip_prefix(get_str!(value, task_state, StringMatcherError))
                    .is_some_and(|x| x.starts_with(split))"""))
r("insert-let", "P14", (SMO, "Self::Insert{index, value} => if to.is_char_boundary(neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?) {to.insert_str(neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?, get_str!(value, task_state, StringModificationError));} else {Err(StringModificationError::InvalidIndex)?;},",
  """Self::Insert{index, value} => {
                let fixed_index = neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?;
                if !to.is_char_boundary(fixed_index) {Err(StringModificationError::InvalidIndex)?;}
                to.insert_str(fixed_index, get_str!(value, task_state, StringModificationError));
            },"""))
r("strip-strip", "P14", (SMO, """                if to.ends_with  (suffix) {to.truncate(to.len()-suffix.len());};
            },
            Self::Insert""", """                if let Some(rest) = to.strip_suffix(suffix) {
                    let new_len = rest.len();
                    to.truncate(new_len);
                }
            },
            Self::Insert"""))
r("join-loop", "P15", (SS, "Self::Join {sources, join} => sources.iter().map(|value| value.get(task_state)).collect::<Result<Option<Vec<_>>, _>>()?.map(|x| Cow::Owned(x.join(join))),",
  """Self::Join {sources, join} => {
                let mut parts = Vec::with_capacity(sources.len());
                for source in sources {
                    match source.get(task_state)? {
                        Some(part) => parts.push(part),
                        None => return Ok(None)
                    }
                }
                Some(Cow::Owned(parts.join(join)))
            },"""))
r("noneto-match", "P15", (SS, "Self::NoneTo {value, if_none} => value.get(task_state).transpose().or_else(|| if_none.get(task_state).transpose()).transpose()?,", "Self::NoneTo {value, if_none} => match value.get(task_state)? {\n                Some(x) => Some(x),\n                None => if_none.get(task_state)?\n            },"))
r("flag-helper", "P16", (FL, """            Self::Params     => task_state.params     .flags.contains(name),
            Self::Common     => task_state.common_args.ok_or(GetFlagError::NotInCommonContext)?.flags.contains(name),""", """            Self::Common     => match task_state.common_args {
                Some(args) => args.flags.contains(name),
                None => return Err(GetFlagError::NotInCommonContext)
            },
            Self::Params     => task_state.params     .flags.contains(name),"""))
r("common-let", "P16", (MP, """                task_state.commons.mappers.get(get_str!(common_call.name, task_state, MapperError)).ok_or(MapperError::CommonMapperNotFound)?.apply(&mut TaskState {
                    common_args: Some(&common_call.args.build(&task_state.to_view())?),""", """                let mapper = task_state.commons.mappers.get(get_str!(common_call.name, task_state, MapperError)).ok_or(MapperError::CommonMapperNotFound)?;
                let args = common_call.args.build(&task_state.to_view())?;
                mapper.apply(&mut TaskState {
                    common_args: Some(&args),"""))
r("params-foreach", "P17", (PA, """        for flag in self.unflags {to.flags.remove(&flag);}""", """        to.flags.retain(|flag| !self.unflags.contains(flag));"""))
r("params-reorder", "P17", (PA, """        to.flags.extend(self.flags);
        for flag in self.unflags {to.flags.remove(&flag);}

        to.vars.extend(self.vars);
        for var in self.unvars {to.vars.remove(&var);}""", """        to.vars.extend(self.vars);
        to.flags.extend(self.flags);
        for var in self.unvars {to.vars.remove(&var);}
        for flag in self.unflags {to.flags.remove(&flag);}"""))
r("map-match", "P18", (MA, "value.map(|x| self.map.get(x.as_ref())).unwrap_or(self.if_null.as_deref()).or(self.r#else.as_deref())", """match value {
            Some(key) => self.map.get(key.as_ref()),
            None => self.if_null.as_deref()
        }.or(self.r#else.as_deref())"""))
r("np-contains", "P18", (NP, "if ret.partition_names.iter().any(|x| **x == *partition_name) {", "if ret.partition_names.contains(&partition_name) {"))
r("np-entry", "P18", (NP, """                match ret.map.entry(v) {
                    Entry::Vacant(e) => {e.insert(partition_name.clone());},
                    Entry::Occupied(e) =>""", """                let entry = ret.map.entry(v);
                match entry {
                    Entry::Vacant(e) => {let _ = e.insert(Arc::clone(&partition_name));},
                    Entry::Occupied(e) =>"""))
r("js-order", "P19", (JS, """            (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\\u{0008}');},
""", ""), (JS, "            (StringLiteralPrefixLastState::Start           , 't'  ", "            (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside; ret.push('\\u{0008}');},\n            (StringLiteralPrefixLastState::Start           , 't'  "))
r("unesc-first", "P19", (UN, """    let mut first = true;

    for segment in s.split('&') {
        match (first, segment.split_once(';')) {
            (true , _                     ) => {ret.push_str(segment); first=false;}
            (false, Some((char_ref, rest))) => {ret.push_str(&parse_char_ref(char_ref)?); ret.push_str(rest);},
            (false, None                  ) => Err(UnescapeTextError::SyntaxError)?
        }
    }""", """    let mut segments = s.split('&');
    if let Some(segment) = segments.next() {ret.push_str(segment);}
    for segment in segments {
        let (char_ref, rest) = segment.split_once(';').ok_or(UnescapeTextError::SyntaxError)?;
        ret.push_str(&parse_char_ref(char_ref)?);
        ret.push_str(rest);
    }"""))
r("attr-helper", "P19", (GA, "(LB::AttributeValueDoubleQuoted, '\"' ) => {state.last_bite = LB::AfterAttributeValueQuoted; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},", "(LB::AttributeValueDoubleQuoted, '\"' ) => {state.last_bite = LB::AfterAttributeValueQuoted; finish_value(state, i);},"),
  (GA, "/// Advance the state of", "/// Record the value ending at `end` if the current attribute is the wanted one.\nfn finish_value(state: &mut GAVState, end: usize) {\n    if &state.input[state.attr_name_start..state.attr_name_end] == state.name {\n        state.ret = Some(Some(&state.input[state.attr_value_start..end]));\n    }\n}\n\n/// Advance the state of"))
ids = sys.argv[1:] or list(R)
for id in ids:
    props, edits = R[id]
    if not os.path.isdir(W): subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True, cwd=W, check=True)
    for f, a, b in edits:
        p = os.path.join(W, f); t = open(p).read(); n = t.count(a)
        if n < 1: print(id, "EDIT DOES NOT APPLY", f, a[:60]); break
        open(p, "w").write(t.replace(a, b, 1))
    else:
        if os.environ.get("APPLY"): continue
        for P in props:
            c = subprocess.run(["python3", "/verif/run/check.py", P], env=dict(os.environ, VX_REPO=W, VX_BUILD=os.environ.get("RB", "/tmp/vb2")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            L = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION") or "obligations" in x]
            open("/tmp/rf_%s_%s.log" % (id, P), "w").write(c.stdout)
            print(id, P, "rc", c.returncode, " | ".join(L), flush=True)
