From 0934906d0e59300d48e7a386737afcb4b6746c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 01/21] fix: keep the host details in step with the host the
 URL ends up with in set_domain_host

For non-special schemes (and file://localhost) Url::set_host doesn't store the host HostDetails::from_host_str analysed.
---
 src/types/better_url.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 6c3224a..31db300 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -378,9 +378,9 @@ impl BetterUrl {
     ///
     /// If the call to [`HostDetails::from_host_str`] doesn't return a [`HostDetails::Domain`], returns the error [`SetDomainHostError::ProvidedHostIsNotADomain`].
     pub fn set_domain_host(&mut self, domain: &str) -> Result<(), SetDomainHostError> {
-        if let Ok(host_details @ HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
+        if let Ok(HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
             self.url.set_host(Some(domain))?;
-            self.host_details = Some(host_details);
+            self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
         } else {
             Err(SetDomainHostError::ProvidedHostIsNotADomain)?;
         }
-- 
2.43.0


From 5c65949092ca547a9664f451b216133bffe0ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 02/21] fix: report an error from set_fqdn instead of panicking
 when the host without its period isn't a valid host

Examples: https://./ and https://1.2.3.4.5../.
---
 src/types/better_url.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 31db300..77fde1d 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -140,7 +140,10 @@ pub enum SetFqdnPeriodError {
     NoHost,
     /// Returned when the URL's host isn't a domain.
     #[error("The URL's host wasn't a domain.")]
-    HostIsNotADomain
+    HostIsNotADomain,
+    /// Returned when a [`SetHostError`] is encountered.
+    #[error(transparent)]
+    SetHostError(#[from] SetHostError)
 }
 
 /// The enum of errors [`BetterUrl::set_domain_host`] can return.
@@ -553,6 +556,8 @@ impl BetterUrl {
     /// If `self` doesn't have a host, returns the error [`SetFqdnPeriodError::NoHost`].
     ///
     /// If the host isn't a domain, returns the error [`SetFqdnPeriodError::HostIsNotADomain`].
+    ///
+    /// If the call to [`Self::set_host`] returns an error, that error is returned.
     /// # Examples
     /// ```
     /// use url_cleaner::types::*;
@@ -574,9 +579,9 @@ impl BetterUrl {
     pub fn set_fqdn(&mut self, to: bool) -> Result<(), SetFqdnPeriodError> {
         match (self.host_details(), to) {
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), false) => {},
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host.")))).expect("Adding a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host."))))?},
             #[expect(clippy::unnecessary_to_owned, reason = "It is necessary.")]
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string())).expect("Removing a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string()))?},
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), true ) => {},
             (Some(_), _) => Err(SetFqdnPeriodError::HostIsNotADomain)?,
             (None, _) => Err(SetFqdnPeriodError::NoHost)?
-- 
2.43.0


From bf5ae1531f3009626145442c5aaad38a12e66aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 03/21] fix: make set_subdomain(None) return the documented
 MissingRegDomain error instead of replacing a host like com. with just a
 period

---
 src/types/better_url.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 77fde1d..2255e07 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -444,8 +444,8 @@ impl BetterUrl {
                 (Some(_ ), None    , true ) => Err(SetSubdomainError::MissingRegDomain)?,
                 (None    , Some(rd), false) => self.set_domain_host(&format!("{rd}"))?,
                 (None    , Some(rd), true ) => self.set_domain_host(&format!("{rd}."))?,
-                (None    , None    , false) => self.set_domain_host(&format!(""))?,
-                (None    , None    , true ) => self.set_domain_host(&format!("."))?
+                (None    , None    , false) => Err(SetSubdomainError::MissingRegDomain)?,
+                (None    , None    , true ) => Err(SetSubdomainError::MissingRegDomain)?
             },
             _ => Err(SetSubdomainError::HostIsNotADomain)?
         })
-- 
2.43.0


From 32fc9bbfb9591accd4cfc3c0dd8d3a32b7f3e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 04/21] fix: CharMatcher::IsDigitRadix returns InvalidRadix for
 radices below 2 instead of panicking

---
 src/types/char_matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/char_matcher.rs b/src/types/char_matcher.rs
index 83369d2..18f64f6 100644
--- a/src/types/char_matcher.rs
+++ b/src/types/char_matcher.rs
@@ -72,7 +72,7 @@ pub enum CharMatcher {
     IsDigit,
     /// [`char::is_digit`].
     /// # Errors
-    /// If the radix is greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
+    /// If the radix is less than 2 or greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
     IsDigitRadix(u32),
     /// [`char::is_lowercase`].
     IsLowercase,
@@ -85,7 +85,7 @@ pub enum CharMatcher {
 }
 #[derive(Debug, Error)]
 pub enum CharMatcherError {
-    #[error("Invalid radix: {0}. Radix must be between 0 and 36 inclusive. See [`char::is_digit`] for details.")]
+    #[error("Invalid radix: {0}. Radix must be between 2 and 36 inclusive. See [`char::is_digit`] for details.")]
     InvalidRadix(u32),
     #[error("CharMatcher::Error was used.")]
     ExplicitError,
@@ -169,7 +169,7 @@ impl CharMatcher {
             Self::IsAsciiWhitespace   => c.is_ascii_whitespace(),
             Self::IsControl           => c.is_control(),
             Self::IsDigit             => c.is_ascii_digit(),
-            Self::IsDigitRadix(radix) => if *radix <= 36 {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
+            Self::IsDigitRadix(radix) => if (2..=36).contains(radix) {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
             Self::IsLowercase         => c.is_lowercase(),
             Self::IsNumeric           => c.is_numeric(),
             Self::IsUppercase         => c.is_uppercase(),
-- 
2.43.0


From 1bb8e75f321c7f0486f2810800c3329fd9003f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 05/21] fix: globs written as plain strings are case sensitive
 by default, as documented

---
 src/glue/glob.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/glob.rs b/src/glue/glob.rs
index a54c4b6..c512738 100644
--- a/src/glue/glob.rs
+++ b/src/glue/glob.rs
@@ -47,7 +47,7 @@ impl From<Pattern> for GlobWrapper {
     fn from(value: Pattern) -> Self {
         Self {
             pattern: value,
-            options: Default::default()
+            options: MatchOptions::new()
         }
     }
 }
-- 
2.43.0


From 3d7ae3bd19d01aaf2236c543d5fbcaf7709a571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 06/21] fix: HttpClientConfigDiff::referer sets the referer
 setting, not no_proxy

---
 src/glue/http_client_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/http_client_config.rs b/src/glue/http_client_config.rs
index f5b0982..6018f40 100644
--- a/src/glue/http_client_config.rs
+++ b/src/glue/http_client_config.rs
@@ -146,7 +146,7 @@ impl HttpClientConfigDiff {
         if let Some(set_proxies) = &self.set_proxies {to.proxies.clone_from(set_proxies);}
         to.proxies.extend(self.add_proxies.clone());
         if let Some(no_proxy) = self.no_proxy {to.no_proxy = no_proxy;}
-        if let Some(referer) = self.referer {to.no_proxy = referer;}
+        if let Some(referer) = self.referer {to.referer = referer;}
         to.extra_certificates.extend(self.add_extra_certificates.clone());
         to.extra_certificates.retain(|extra_certificate| !self.remove_extra_certificates.contains(extra_certificate));
     }
-- 
2.43.0


From 4929d6e0b636f2f59155446f3a563ddbf848cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 07/21] fix: --no-proxy on its own is not ignored

---
 src/types/config/params.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index d1d56b3..c9b8573 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -392,6 +392,7 @@ impl ParamsDiffArgParser {
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.read_cache.is_some()};
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.write_cache.is_some()};
         #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some()};
+        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.no_proxy.is_some()};
         !self.flag.is_empty() || !self.unflag.is_empty() || !self.var.is_empty() || !self.unvar.is_empty() || !self.insert_into_set.is_empty() || !self.remove_from_set.is_empty() || !self.insert_into_map.is_empty() || !self.remove_from_map.is_empty() || feature_flag_make_params_diff
     }
 }
-- 
2.43.0


From 9427134d584ad86f02ff8d54b5ef5b598a9eb0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 08/21] fix: repeated
 --insert-into-set/--remove-from-set/--insert-into-map/--remove-from-map
 options for one name add up

---
 src/types/config/params.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index c9b8573..18ab7b0 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -344,8 +344,22 @@ impl ParamsDiffArgParser {
             }).collect::<Result<_, _>>()?,
             unvars : self.unvar.into_iter().collect(),
             init_sets: Default::default(),
-            insert_into_sets: self.insert_into_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)}).collect::<Result<_, _>>()?,
-            remove_from_sets: self.remove_from_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)}).collect::<Result<_, _>>()?,
+            insert_into_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+                for mut invocation in self.insert_into_set {
+                    if invocation.is_empty() {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)?;}
+                    ret.entry(invocation.swap_remove(0)).or_default().extend(invocation);
+                }
+                ret
+            },
+            remove_from_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+                for mut invocation in self.remove_from_set {
+                    if invocation.is_empty() {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)?;}
+                    ret.entry(invocation.swap_remove(0)).or_default().extend(invocation);
+                }
+                ret
+            },
             delete_sets     : Default::default(),
             init_maps       : Default::default(),
             map_diffs       : {
@@ -354,7 +368,7 @@ impl ParamsDiffArgParser {
                 for invocation in self.insert_into_map {
                     if invocation.len() % 2 == 1 {
                         let mut x = invocation.into_iter();
-                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map = std::iter::from_fn(|| x.next().zip(x.next())).collect();
+                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map.extend(std::iter::from_fn(|| x.next().zip(x.next())));
                     } else {
                         Err(ParamsDiffArgParserValueWrong::InsertIntoMapKeyWithoutValue)?
                     }
@@ -364,7 +378,7 @@ impl ParamsDiffArgParser {
                     if !invocation.is_empty() {
                         let mut x = invocation.into_iter();
                         let name = x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?;
-                        ret.entry(name).or_default().remove_from_map = x.collect();
+                        ret.entry(name).or_default().remove_from_map.extend(x);
                     } else {
                         Err(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?
                     }
-- 
2.43.0


From 2582094d37cea271525fdf700bd6ba674ac32185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 09/21] fix: js string literals: the form feed escape is \f,
 not \g

---
 src/glue/parse/js/string_literal_prefix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 912a8cb..53bbacf 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -103,7 +103,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Inside          , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Start           ;},
             (StringLiteralPrefixLastState::Start           , '0'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\0');},
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
-            (StringLiteralPrefixLastState::Start           , 'g'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
+            (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
             (StringLiteralPrefixLastState::Start           , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
             (StringLiteralPrefixLastState::Start           , 'r'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\r');},
-- 
2.43.0


From bff52d2e367304925d0fda9ea24e17ad1fecb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 10/21] fix: js string literals: \x escapes may start with 8 or
 9

---
 src/glue/parse/js/string_literal_prefix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 53bbacf..cebc29d 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -116,7 +116,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Octal2          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap();},
             (StringLiteralPrefixLastState::Octal2          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'x'                              ) => {last_state = StringLiteralPrefixLastState::AsciiHexx       ;},
-            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='7' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
+            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::AsciiHex1       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'u'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeU        ;},
             (StringLiteralPrefixLastState::UnicodeU        , '{'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeLeftBrace;},
-- 
2.43.0


From ead2e16ea0fab022a4099a1049eb900eba2c3790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 11/21] fix: html attributes: slice by byte offsets, not char
 counts

---
 src/glue/parse/html/get_attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 96b4eb1..db117d8 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -176,7 +176,7 @@ pub fn get_attribute_value<'a>(input: &'a str, name: &'a str) -> Result<Option<O
         attr_value_start: 0
     };
 
-    for (i, c) in input.chars().enumerate() {
+    for (i, c) in input.char_indices() {
         if let Err(e) = munch(&mut state, i, c) {
             return Err(GAVError::Syntax {
                 index: i,
-- 
2.43.0


From 629693ecf322e85451cd7c102a48f264d366ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 12/21] fix: html attributes: record an attribute without a
 value wherever its name ends, and start a new name after it

---
 src/glue/parse/html/get_attribute.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index db117d8..4276f71 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -225,18 +225,17 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::BeforeAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; munch(state, i, c)?;},
-        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} else {state.ret = None;} munch(state, i, c)?;},
-        (LB::AttributeName, '='                           ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
-        (LB::AttributeName, '\0' | '"' | '\'' | '<'       ) => Err(EK::UnexpectedCharacterInAttributeName)?,
-        (LB::AttributeName, _                             ) => {},
+        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/' | '>') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} munch(state, i, c)?;},
+        (LB::AttributeName, '='                                 ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
+        (LB::AttributeName, '\0' | '"' | '\'' | '<'             ) => Err(EK::UnexpectedCharacterInAttributeName)?,
+        (LB::AttributeName, _                                   ) => {},
 
 
         (LB::AfterAttributeName, '\t' | '\r' | '\n' | ' ') => {},
         (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ;},
         (LB::AfterAttributeName, '='                     ) => {state.last_bite = LB::BeforeAttributeValue;},
-        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..i] == state.name {state.ret = Some(None);}},
-        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; munch(state, i, c)?;},
+        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done;},
+        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; state.attr_name_start = i; munch(state, i, c)?;},
 
 
         (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | ' ') => {},
-- 
2.43.0


From 84ce8f51a1a5043963f1d50ee219112c0bf81ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 13/21] fix: js string literals: an unterminated literal is an
 error

---
 src/glue/parse/js/string_literal_prefix.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index cebc29d..50efde6 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -65,7 +65,10 @@ pub enum StringLiteralPrefixError {
     },
     /// Returned when an invalid codepoint is encountered.
     #[error("An invalid codepoint was encountered: {0}.")]
-    InvalidCodepoint(u32)
+    InvalidCodepoint(u32),
+    /// Returned when the string literal isn't finished.
+    #[error("The string literal wasn't finished.")]
+    UnfinishedLiteral
 }
 
 /// Given a [`str`] that starts with a javascript string literal, return the value of that string.
@@ -75,6 +78,8 @@ pub enum StringLiteralPrefixError {
 /// If a syntax error happens, returns the error [`StringLiteralPrefixLastState::SyntaxError`].
 ///
 /// If an invalid codepoint is encountered, returns the error [`StringLiteralPrefixLastState::InvalidCodepoint`].
+///
+/// If the string literal isn't finished, returns the error [`StringLiteralPrefixError::UnfinishedLiteral`].
 /// # Examples
 /// ```
 /// # use url_cleaner::glue::*;
@@ -134,13 +139,13 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Unicode41       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Unicode42       ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::Unicode42       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Unicode43       ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::Unicode43       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
-            (StringLiteralPrefixLastState::Inside          , '"' | '\''                       ) if c == quote => break,
+            (StringLiteralPrefixLastState::Inside          , '"' | '\''                       ) if c == quote => return Ok(ret),
             (StringLiteralPrefixLastState::Start           , _                                ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push(c);},
             (StringLiteralPrefixLastState::Inside          , _                                ) => {ret.push(c);}
             _ => Err(StringLiteralPrefixError::SyntaxError {last_state, i, c, scratchspace, quote, partial: ret.clone()})?
         };
     }
 
-    Ok(ret)
+    Err(StringLiteralPrefixError::UnfinishedLiteral)
 }
 
-- 
2.43.0


From ec33ba374e15f06a79d87796e6bf117401518a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 14/21] fix: writing to the cache overwrites the entry instead
 of adding one that is never read

---
 src/glue/caching.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 9e143b5..f5b6569 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -304,13 +304,20 @@ impl InnerCache {
     /// # Errors
     /// If the call to [`Self::connect`] returns an error, that error is returned.
     ///
-    /// If the call to [`RunQueryDsl::get_result`] returns an error, that error is returned.
+    /// If the call to [`RunQueryDsl::execute`] to overwrite the entry returns an error, that error is returned.
+    ///
+    /// If the call to [`RunQueryDsl::execute`] to insert the entry returns an error, that error is returned.
     pub fn write(&mut self, category: &str, key: &str, value: Option<&str>) -> Result<(), WriteToCacheError> {
         debug!(InnerCache::write, self, category, key, value);
-        diesel::replace_into(cache::table)
-            .values(&NewCacheEntry {category, key, value})
-            .returning(CacheEntry::as_returning())
-            .get_result(self.connect()?)?;
+        let connection = self.connect()?;
+        let overwritten = diesel::update(cache::dsl::cache.filter(cache::dsl::category.eq(category)).filter(cache::dsl::key.eq(key)))
+            .set(cache::dsl::value.eq(value))
+            .execute(connection)?;
+        if overwritten == 0 {
+            diesel::insert_into(cache::table)
+                .values(&NewCacheEntry {category, key, value})
+                .execute(connection)?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From b32bb96c2bab106df8c70d702c30fe16c9b2d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 15/21] fix: a cache path starting with file:// names the file
 SQLite opens, so look for that file

---
 src/glue/caching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index f5b6569..2fc1607 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -263,7 +263,7 @@ impl InnerCache {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
             let mut needs_init = self.path == CachePath::Memory;
-            if let CachePath::Path(path) = &self.path {
+            if let Some(path) = self.path.as_path() {
                 if !std::fs::exists(path)? {
                     needs_init = true;
                     std::fs::File::create_new(path)?;
-- 
2.43.0


From b104869844086846116ddb1259a51e3fd988af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 16/21] fix: a cache file left without its table (interrupted
 creation, mktemp) is initialised instead of failing every read and write

---
 src/glue/caching.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 2fc1607..d4e710f 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -26,8 +26,8 @@ diesel::table! {
     }
 }
 
-/// The Sqlite command to initialize the cache databese.
-pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE cache (
+/// The Sqlite command to initialize the cache databese if it isn't already.
+pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE IF NOT EXISTS cache (
     id INTEGER NOT NULL PRIMARY KEY,
     category TEXT NOT NULL,
     "key" TEXT NOT NULL,
@@ -262,17 +262,13 @@ impl InnerCache {
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            let mut needs_init = self.path == CachePath::Memory;
             if let Some(path) = self.path.as_path() {
                 if !std::fs::exists(path)? {
-                    needs_init = true;
                     std::fs::File::create_new(path)?;
                 }
             }
             let mut connection = SqliteConnection::establish(self.path.as_str())?;
-            if needs_init {
-                diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
-            }
+            diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
         Ok(self.connection.get_mut().expect("The connection to have just been set."))
-- 
2.43.0


From 1b939fa3f9de71add32d3f3f4b8b1489ab12e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 17/21] fix: a command given a long STDIN and printing a long
 STDOUT deadlocked; give it its input while collecting its output

---
 src/glue/command.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 5b48067..1515037 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -2,7 +2,7 @@
 //!
 //! No the default config does not and will never use this.
 
-use std::process::{Command, Stdio};
+use std::process::{Child, Command, Output, Stdio};
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::{from_utf8, FromStr};
@@ -149,16 +149,14 @@ impl CommandConfig {
         let mut command = self.build(job_state)?;
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
-        let child = if let Some(stdin) = &self.stdin {
+        let output = if let Some(stdin) = &self.stdin {
+            let input = get_string!(stdin, job_state, CommandError);
             command.stdin(Stdio::piped());
-            let mut child=command.spawn()?;
-            let child_stdin=child.stdin.as_mut().expect("The STDIN just set to be available."); // This never panics.
-            child_stdin.write_all(get_string!(stdin, job_state, CommandError).as_bytes())?;
-            child
+            feed(command.spawn()?, &input)?
         } else {
-            command.spawn()?
+            command.spawn()?.wait_with_output()?
         };
-        Ok(from_utf8(&child.wait_with_output()?.stdout)?.to_string())
+        Ok(from_utf8(&output.stdout)?.to_string())
     }
 
     /// Executes the command and gets a [`Url`] from the first and only line of its STDOUT, trimming any trailing `\r` and `\n`.
@@ -171,3 +169,16 @@ impl CommandConfig {
         Ok(Url::parse(self.output(job_state)?.trim_end_matches(['\r', '\n']))?)
     }
 }
+
+/// Gives `child` its STDIN while collecting its output.
+///
+/// Doing one after the other never ends when both are too long for their pipes.
+fn feed(mut child: Child, input: &str) -> Result<Output, std::io::Error> {
+    let mut child_stdin = child.stdin.take().expect("The STDIN just set to be available."); // This never panics.
+    std::thread::scope(|scope| {
+        let writer = scope.spawn(move || child_stdin.write_all(input.as_bytes()));
+        let output = child.wait_with_output()?;
+        writer.join().expect("Writing to not panic.")?;
+        Ok(output)
+    })
+}
-- 
2.43.0


From f21b76d6d64f74f94d9f28190d960a5611aa7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 18/21] fix: JSON request bodies: null, booleans and arrays
 deserialise instead of erroring

---
 src/glue/json.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index 68afc9f..a437e55 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -83,6 +83,20 @@ impl<'de> Deserialize<'de> for StringSourceJsonValue {
                 Self::Value::deserialize(serde::de::value::MapAccessDeserializer::new(map))
             }
 
+            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+                let mut ret = Vec::new();
+                while let Some(x) = seq.next_element()? {ret.push(x);}
+                Ok(Self::Value::Array(ret))
+            }
+
+            fn visit_unit<E>(self) -> Result<Self::Value, E> {
+                Ok(Self::Value::Null)
+            }
+
+            fn visit_bool<E>(self, value: bool) -> Result<Self::Value, E> {
+                Ok(Self::Value::Bool(value))
+            }
+
             fn visit_i64<E>(self, value: i64) -> Result<Self::Value, E> {
                 Ok(Value::Number(value.into()).into())
             }
-- 
2.43.0


From fa601477ee18d9adf8ed62c9286edd707cd1d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:10 +0000
Subject: [PATCH 19/21] fix: a cache path that is in memory is read back as one

CachePath::Memory was written as "Memory", which is read back as the path of a file of that name.
It is now written as ":memory:"; "Memory" as a variant name stays accepted where it was.
---
 src/glue/caching.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index d4e710f..1f90f95 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -109,6 +109,7 @@ pub enum CachePath {
     ///
     /// Has the string representation of `:memory:`.
     #[default]
+    #[serde(rename = ":memory:", alias = "Memory")]
     Memory,
     /// A filesystem/network/whatever path.
     Path(String)
-- 
2.43.0


From c1181de8a8398beedf376215b45d375e9f763099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:10 +0000
Subject: [PATCH 20/21] fix: a null in a JSON body template is written as null

StringSourceJsonValue::Null was written as the text "Null", which is read back as that text.
---
 src/glue/json.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index a437e55..dfe93a5 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -59,7 +59,10 @@ impl From<String> for StringSourceJsonValue {
 #[allow(clippy::missing_errors_doc, reason = "Who cares?")]
 impl Serialize for StringSourceJsonValue {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        <StringSourceJsonValue>::serialize(self, serializer)
+        match self {
+            Self::Null => serializer.serialize_unit(),
+            _ => <StringSourceJsonValue>::serialize(self, serializer)
+        }
     }
 }
 
-- 
2.43.0


From 0ef7029d1b6ad07974c3f8884526b6d1a6218dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:04 +0000
Subject: [PATCH 21/21] fix: header values that are not ASCII are written, as
 they are read, instead of failing

---
 src/glue.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glue.rs b/src/glue.rs
index 67e9ba3..6be1314 100644
--- a/src/glue.rs
+++ b/src/glue.rs
@@ -37,9 +37,9 @@ pub(crate) mod serde_headervalue {
 
     /// Serializes a [`HeaderValue`].
     /// # Errors
-    /// If the call to [`HeaderValue::to_str`] returns an error, that error is returned.
+    /// If the value isn't UTF-8, returns an error.
     pub fn serialize<S: Serializer>(x: &HeaderValue, s: S) -> Result<S::Ok, S::Error> {
-        s.serialize_str(x.to_str().map_err(S::Error::custom)?)
+        s.serialize_str(std::str::from_utf8(x.as_bytes()).map_err(S::Error::custom)?)
     }
 }
 
@@ -61,8 +61,8 @@ pub(crate) mod serde_headermap {
 
     /// Serializes a [`HeaderMap`].
     /// # Errors
-    /// Never returns an error.
+    /// If a value isn't UTF-8, returns an error.
     pub fn serialize<S: Serializer>(x: &HeaderMap, s: S) -> Result<S::Ok, S::Error> {
-        s.collect_map(x.into_iter().map(|(k, v)| v.to_str().map(|v| (k.as_str().to_string(), v.to_string()))).collect::<Result<HashMap<_, _>, _>>().map_err(S::Error::custom)?)
+        s.collect_map(x.into_iter().map(|(k, v)| std::str::from_utf8(v.as_bytes()).map(|v| (k.as_str().to_string(), v.to_string()))).collect::<Result<HashMap<_, _>, _>>().map_err(S::Error::custom)?)
     }
 }
-- 
2.43.0

