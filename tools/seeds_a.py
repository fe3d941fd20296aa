import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
M = lambda m: {"Mapper": m}
B = "src/types/better_url.rs"; D = "src/types/better_url/host_details/domain.rs"
SP = lambda p, v: M({"SetPart": {"part": p, "value": v}})
mkseed("p01-short-fqdn", "P01", [(D, "fqdn_period : domain.strip_suffix('.').map(|x| x.len())", "fqdn_period : domain.strip_suffix('.').map(|x| x.len()).filter(|x| domain.find('.') != Some(*x))")],
  [([M({"CopyPart": {"from": "Domain", "to": "Fragment"}})], "https://localhost./", "https://localhost./#localhost"), ([M({"CopyPart": {"from": "Domain", "to": "Fragment"}})], "https://a.com./", "https://a.com./#a.com")],
  "a single-label host with a trailing dot", "the dot of such a host is reported as part of the domain instead of apart from it")
mkseed("p02-same-length-stale", "P02", [(B, "{self.url.set_host(host)?; self.host_details = self.url.host().map(|host| HostDetails::from_host(&host)); Ok(())}", "{let old_len = self.url.host_str().map(str::len); self.url.set_host(host)?; if self.url.host_str().map(str::len) != old_len {self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));} Ok(())}")],
  [([M({"SetHost": "example.xyz"}), M({"CopyPart": {"from": "DomainSuffix", "to": "Fragment"}})], "https://aa.bb.co.uk/x", "https://example.xyz/x#xyz")],
  "replacing the host by another host of the same length but with different label boundaries, then reading a part", "the cached host analysis of the old host is kept")
mkseed("p03-middle-removal-dot", "P03", [(B, '(Some(sd), None    , Some(su), true ) => self.set_domain_host(&format!("{sd}.{su}."))?', '(Some(sd), None    , Some(su), true ) => self.set_domain_host(&format!("{sd}.{su}"))?')],
  [([SP("DomainMiddle", None)], "https://a.b.co.uk./x", "https://a.co.uk./x"), ([SP("DomainMiddle", None)], "https://a.b.co.uk/x", "https://a.co.uk/x")],
  "removing the domain middle of a host with a subdomain and a trailing dot", "the trailing dot is lost")
