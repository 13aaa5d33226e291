//! Stand-in for reqwest: no network; every request goes to the responder installed with `set_responder`.
pub use http::{header, Method, StatusCode, Version};
pub use url::Url;
use std::sync::{Arc, RwLock};
use std::time::Duration;
#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, Default)]
pub struct Body(Vec<u8>);
impl From<Vec<u8>> for Body { fn from(v: Vec<u8>) -> Self { Body(v) } }
impl From<String> for Body { fn from(v: String) -> Self { Body(v.into()) } }
impl Body { pub fn as_bytes(&self) -> Option<&[u8]> { Some(&self.0) } }
#[derive(Debug, Clone)]
pub struct Request {
    pub method: Method,
    pub url: Url,
    pub headers: header::HeaderMap,
    pub body: Body,
    /// where the request really goes through
    pub proxy: Option<String>,
    /// how many redirections are followed
    pub redirects: usize,
    pub timeout: Option<Duration>,
}
#[derive(Debug, Clone)]
pub struct Reply { pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
type Responder = Arc<dyn Fn(&Request) -> Result<Reply, String> + Send + Sync>;
static RESPONDER: RwLock<Option<Responder>> = RwLock::new(None);
pub fn set_responder(f: impl Fn(&Request) -> Result<Reply, String> + Send + Sync + 'static) { *RESPONDER.write().unwrap() = Some(Arc::new(f)) }
thread_local! { static LOCAL: std::cell::RefCell<Option<Responder>> = const { std::cell::RefCell::new(None) } }
/// Answers the requests of this thread.
pub fn set_local_responder(f: impl Fn(&Request) -> Result<Reply, String> + Send + Sync + 'static) { LOCAL.with(|l| *l.borrow_mut() = Some(Arc::new(f))) }
pub mod redirect {
    #[derive(Debug, Clone)]
    pub struct Policy(pub(crate) usize);
    impl Policy { pub fn limited(n: usize) -> Self { Policy(n) } pub fn none() -> Self { Policy(0) } }
    impl Default for Policy { fn default() -> Self { Policy(10) } }
}
/// A proxy, and the schemes it is for.
#[derive(Debug, Clone)]
pub struct Proxy(String, &'static [&'static str]);
impl Proxy {
    pub fn http(u: Url) -> Result<Proxy, Error> { Ok(Proxy(u.to_string(), &["http"])) }
    pub fn https(u: Url) -> Result<Proxy, Error> { Ok(Proxy(u.to_string(), &["https"])) }
    pub fn all(u: Url) -> Result<Proxy, Error> { Ok(Proxy(u.to_string(), &["http", "https"])) }
}
#[derive(Debug, Clone, Default)]
pub struct Client { proxies: Vec<Proxy>, redirects: redirect::Policy, timeout: Option<Duration> }
#[derive(Default)]
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn proxy(mut self, p: Proxy) -> Self { self.0.proxies.push(p); self }
    pub fn redirect(mut self, p: redirect::Policy) -> Self { self.0.redirects = p; self }
    pub fn timeout(mut self, t: Duration) -> Self { self.0.timeout = Some(t); self }
    pub fn build(self) -> Result<Client, Error> { Ok(self.0) }
}
impl Client {
    pub fn new() -> Self { Self::default() }
    pub fn builder() -> ClientBuilder { ClientBuilder::default() }
    pub fn request(&self, method: Method, url: Url) -> RequestBuilder {
        let proxy = self.proxies.iter().find(|p| p.1.contains(&url.scheme())).map(|p| p.0.clone());
        RequestBuilder(Request { method, url, headers: Default::default(), body: Default::default(), proxy, redirects: self.redirects.0, timeout: self.timeout })
    }
    pub fn get(&self, u: Url) -> RequestBuilder { self.request(Method::GET, u) }
    pub fn post(&self, u: Url) -> RequestBuilder { self.request(Method::POST, u) }
    pub fn head(&self, u: Url) -> RequestBuilder { self.request(Method::HEAD, u) }
    pub async fn execute(&self, r: Request) -> Result<Response, Error> {
        let f = LOCAL.with(|l| l.borrow().clone()).or_else(|| RESPONDER.read().unwrap().clone());
        match f.map(|f| f(&r)) { Some(Ok(x)) => Ok(Response::from(x)), Some(Err(e)) => Err(Error(e)), None => Err(Error("no network".into())) }
    }
}
pub struct RequestBuilder(Request);
impl RequestBuilder {
    pub fn timeout(mut self, t: Duration) -> Self { self.0.timeout = Some(t); self }
    pub fn body<T: Into<Body>>(mut self, b: T) -> Self { self.0.body = b.into(); self }
    /// Those of the same names are replaced.
    pub fn headers(mut self, h: header::HeaderMap) -> Self { self.0.headers.extend(h); self }
    pub fn build(self) -> Result<Request, Error> { Ok(self.0) }
}
#[derive(Debug)]
pub struct Response { status: StatusCode, headers: header::HeaderMap, body: Vec<u8> }
impl From<Reply> for Response {
    fn from(r: Reply) -> Self {
        let mut headers = header::HeaderMap::new();
        for (k, v) in r.headers { headers.append(header::HeaderName::try_from(k).unwrap(), header::HeaderValue::try_from(v).unwrap()); }
        Response { status: StatusCode::from_u16(r.status).unwrap(), headers, body: r.body }
    }
}
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn headers(&self) -> &header::HeaderMap { &self.headers }
    pub async fn bytes(self) -> Result<bytes::Bytes, Error> { Ok(self.body.into()) }
    pub async fn text(self) -> Result<String, Error> { Ok(String::from_utf8_lossy(&self.body).into_owned()) }
}
