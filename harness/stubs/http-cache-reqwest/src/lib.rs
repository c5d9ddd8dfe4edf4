//! Stand-in: accepts the configuration and forwards every request.
use http::Extensions;
use reqwest::{Request, Response};
use reqwest_middleware::{Middleware, Next, Result};
use std::path::PathBuf;
#[derive(Clone, Debug)]
pub struct CACacheManager {
    pub path: PathBuf,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CacheMode {
    Default,
    NoStore,
    Reload,
    NoCache,
    ForceCache,
    OnlyIfCached,
    IgnoreRules,
}
#[derive(Clone, Debug, Default)]
pub struct HttpCacheOptions {}
pub struct HttpCache<M> {
    pub mode: CacheMode,
    pub manager: M,
    pub options: HttpCacheOptions,
}
pub struct Cache<M>(pub HttpCache<M>);
impl<M: Send + Sync + 'static> Middleware for Cache<M> {
    async fn handle(&self, req: Request, ext: &mut Extensions, next: Next<'_>) -> Result<Response> { next.run(req, ext).await }
}
