//! Stand-in for `reqwest-middleware`.
#![allow(async_fn_in_trait)]
use http::Extensions;
use reqwest::{Client, Request, Response};
use std::{fmt, future::Future, pin::Pin, sync::Arc};
use url::Url;
#[derive(Debug)]
pub enum Error {
    Middleware(anyhow::Error),
    Reqwest(reqwest::Error),
}
impl From<reqwest::Error> for Error {
    fn from(e: reqwest::Error) -> Self { Error::Reqwest(e) }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Middleware(e) => write!(f, "Middleware error: {e}"),
            Error::Reqwest(e) => write!(f, "Request error: {e}"),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub trait Middleware: 'static + Send + Sync {
    async fn handle(&self, req: Request, extensions: &mut Extensions, next: Next<'_>) -> Result<Response>;
}
type Fut<'a> = Pin<Box<dyn Future<Output = Result<Response>> + 'a>>;
trait DynMw: Send + Sync {
    fn call<'a>(&'a self, req: Request, ext: &'a mut Extensions, next: Next<'a>) -> Fut<'a>;
}
impl<M: Middleware> DynMw for M {
    fn call<'a>(&'a self, req: Request, ext: &'a mut Extensions, next: Next<'a>) -> Fut<'a> { Box::pin(self.handle(req, ext, next)) }
}
#[derive(Clone)]
pub struct Next<'a> {
    client: &'a Client,
    rest: &'a [Arc<dyn DynMw>],
}
impl<'a> Next<'a> {
    pub async fn run(self, req: Request, ext: &'a mut Extensions) -> Result<Response> {
        match self.rest.split_first() {
            Some((m, rest)) => m.call(req, ext, Next { client: self.client, rest }).await,
            None => Ok(self.client.execute(req).await?),
        }
    }
}
pub struct ClientBuilder {
    client: Client,
    mws: Vec<Arc<dyn DynMw>>,
}
impl ClientBuilder {
    pub fn new(client: Client) -> Self { ClientBuilder { client, mws: vec![] } }
    pub fn with<M: Middleware>(mut self, m: M) -> Self {
        self.mws.push(Arc::new(m));
        self
    }
    pub fn build(self) -> ClientWithMiddleware { ClientWithMiddleware { client: self.client, mws: self.mws.into() } }
}
#[derive(Clone)]
pub struct ClientWithMiddleware {
    client: Client,
    mws: Arc<[Arc<dyn DynMw>]>,
}
impl ClientWithMiddleware {
    pub fn get(&self, url: Url) -> RequestBuilder { RequestBuilder { client: self.clone(), url } }
}
pub struct RequestBuilder {
    client: ClientWithMiddleware,
    url: Url,
}
impl RequestBuilder {
    pub async fn send(self) -> Result<Response> {
        let mut ext = Extensions::new();
        Next { client: &self.client.client, rest: &self.client.mws }.run(Request::get(self.url), &mut ext).await
    }
}
