//! Stand-in for `reqwest`: plain HTTP/1.1 GET over a blocking socket.
use std::fmt;
use std::io::{Read, Write};
pub use http::StatusCode;
pub use url::Url;
#[derive(Debug)]
pub struct Error {
    msg: String,
    status: Option<StatusCode>,
}
impl Error {
    fn new(m: impl fmt::Display) -> Self { Error { msg: m.to_string(), status: None } }
    pub fn status(&self) -> Option<StatusCode> { self.status }
    pub fn is_status(&self) -> bool { self.status.is_some() }
    pub fn is_timeout(&self) -> bool { false }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.msg) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Default, Debug)]
pub struct Client;
impl Client {
    pub fn new() -> Self { Client }
    pub async fn execute(&self, r: Request) -> Result<Response> { fetch(&r.url) }
}
#[derive(Debug)]
pub struct Request {
    pub url: Url,
}
impl Request {
    pub fn get(url: Url) -> Self { Request { url } }
    pub fn url(&self) -> &Url { &self.url }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    body: Vec<u8>,
}
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn error_for_status(self) -> Result<Response> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error { msg: format!("HTTP status {}", self.status), status: Some(self.status) });
        }
        Ok(self)
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { serde_json::from_slice(&self.body).map_err(Error::new) }
    pub async fn bytes(self) -> Result<Vec<u8>> { Ok(self.body) }
    pub async fn text(self) -> Result<String> { String::from_utf8(self.body).map_err(Error::new) }
}
fn fetch(url: &Url) -> Result<Response> {
    let host = url.host_str().ok_or_else(|| Error::new("no host"))?;
    let port = url.port_or_known_default().unwrap_or(80);
    let mut s = std::net::TcpStream::connect((host, port)).map_err(Error::new)?;
    let path = match url.query() {
        Some(q) => format!("{}?{q}", url.path()),
        None => url.path().to_string(),
    };
    s.write_all(format!("GET {path} HTTP/1.1\r\nHost: {host}\r\nConnection: close\r\n\r\n").as_bytes()).map_err(Error::new)?;
    let mut v = Vec::new();
    s.read_to_end(&mut v).map_err(Error::new)?;
    let cut = v.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| Error::new("truncated response"))?;
    let head = String::from_utf8_lossy(&v[..cut]).to_string();
    let code: u16 = head.split(' ').nth(1).and_then(|c| c.parse().ok()).ok_or_else(|| Error::new("malformed response"))?;
    let body = v[cut + 4..].to_vec();
    let want = head.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").and_then(|x| x.trim().parse::<usize>().ok()));
    if want.is_some_and(|n| n != body.len()) {
        return Err(Error::new("truncated body"));
    }
    Ok(Response { status: StatusCode::from_u16(code).map_err(Error::new)?, body })
}
