//! Thin adapters that run the real crate.
use serde::de::DeserializeOwned;
use serde_json::Value;
use url_cleaner::types::*;
pub fn de<T: DeserializeOwned>(v: &Value) -> T { serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("config does not deserialise: {e}: {v}")) }
pub fn burl(u: &str) -> BetterUrl { BetterUrl::parse(u).expect("harness URL parses") }
#[cfg(feature = "full")] fn cache() -> &'static url_cleaner::glue::Cache { Box::leak(Box::new(Default::default())) }
/// Everything an evaluation can depend on.
#[derive(Default, Clone)]
pub struct World { pub params: Params, pub commons: Commons, pub scratch: JobScratchpad, pub ctx: TaskContext, pub job: JobContext, pub args: Option<(Vec<String>, Vec<(String, String)>)> }
impl World {
    pub fn args(&self) -> Option<CommonCallArgs<'static>> {
        self.args.as_ref().map(|(f, v)| CommonCallArgs { flags: f.iter().map(|x| x.clone().into()).collect(), vars: v.iter().map(|(k, v)| (k.clone().into(), v.clone())).collect() })
    }
    pub fn view<R>(&self, url: &BetterUrl, f: impl FnOnce(&TaskStateView) -> R) -> R {
        let a = self.args();
        f(&TaskStateView { url, scratchpad: &self.scratch, common_args: a.as_ref(), context: &self.ctx, job_context: &self.job, params: &self.params, commons: &self.commons, #[cfg(feature = "full")] cache: cache() })
    }
    pub fn state<R>(&mut self, url: &mut BetterUrl, f: impl FnOnce(&mut TaskState) -> R) -> R {
        let a = self.args();
        f(&mut TaskState { url, scratchpad: &mut self.scratch, common_args: a.as_ref(), context: &self.ctx, job_context: &self.job, params: &self.params, commons: &self.commons, #[cfg(feature = "full")] cache: cache() })
    }
}
/// Applies a string modification given as config JSON; the text afterwards and whether it reported success.
pub fn modify(cfg: &Value, s: &str, u: &BetterUrl, w: &World) -> (String, bool) {
    let m: StringModification = de(cfg);
    let mut t = s.to_string();
    let ok = w.view(u, |v| m.apply(&mut t, v).is_ok());
    (t, ok)
}
