//! A client whose requests are answered in this process, by the function registered for the host.
use std::{
	collections::HashMap,
	fmt,
	sync::{Arc, OnceLock, RwLock},
	time::Duration,
};

pub use url::Url;

/// What a registered function answers: a status and a body, or no connection.
pub type Answer = Option<(u16, Vec<u8>)>;
type Handler = Arc<dyn Fn(&Request) -> Answer + Send + Sync>;

fn hosts() -> &'static RwLock<HashMap<String, Handler>> {
	static HOSTS: OnceLock<RwLock<HashMap<String, Handler>>> = OnceLock::new();
	HOSTS.get_or_init(Default::default)
}

/// Answers all requests for a host until it is unregistered.
pub fn register(host: &str, f: impl Fn(&Request) -> Answer + Send + Sync + 'static) {
	hosts().write().unwrap().insert(host.into(), Arc::new(f));
}

pub fn unregister(host: &str) {
	hosts().write().unwrap().remove(host);
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);

impl StatusCode {
	pub const OK: Self = Self(200);
	pub const BAD_REQUEST: Self = Self(400);
	pub const NOT_FOUND: Self = Self(404);
	pub const IM_A_TEAPOT: Self = Self(418);
	pub const TOO_MANY_REQUESTS: Self = Self(429);
	pub const INTERNAL_SERVER_ERROR: Self = Self(500);
	pub fn as_u16(&self) -> u16 {
		self.0
	}
	pub fn as_str(&self) -> String {
		self.0.to_string()
	}
	pub fn is_success(&self) -> bool {
		self.0 / 100 == 2
	}
	pub fn is_client_error(&self) -> bool {
		self.0 / 100 == 4
	}
	pub fn is_server_error(&self) -> bool {
		self.0 / 100 == 5
	}
	pub fn canonical_reason(&self) -> Option<&'static str> {
		Some(match self.0 {
			200 => "OK",
			400 => "Bad Request",
			401 => "Unauthorized",
			403 => "Forbidden",
			404 => "Not Found",
			418 => "I'm a teapot",
			429 => "Too Many Requests",
			500 => "Internal Server Error",
			502 => "Bad Gateway",
			503 => "Service Unavailable",
			504 => "Gateway Timeout",
			_ => return None,
		})
	}
}
impl fmt::Display for StatusCode {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{} {}", self.0, self.canonical_reason().unwrap_or("<unknown status code>"))
	}
}
impl fmt::Debug for StatusCode {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl PartialEq<u16> for StatusCode {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Method(&'static str);
impl Method {
	pub const GET: Self = Self("GET");
	pub const POST: Self = Self("POST");
	pub fn as_str(&self) -> &str {
		self.0
	}
}

#[derive(Debug)]
enum Kind {
	Request,
	Status(StatusCode),
	Decode(String),
}

pub struct Error(Kind, Option<Url>);

pub type Result<T> = std::result::Result<T, Error>;

impl Error {
	pub fn is_request(&self) -> bool {
		matches!(self.0, Kind::Request)
	}
	pub fn is_connect(&self) -> bool {
		matches!(self.0, Kind::Request)
	}
	pub fn is_timeout(&self) -> bool {
		false
	}
	pub fn is_status(&self) -> bool {
		matches!(self.0, Kind::Status(_))
	}
	pub fn is_decode(&self) -> bool {
		matches!(self.0, Kind::Decode(_))
	}
	pub fn is_body(&self) -> bool {
		false
	}
	pub fn is_builder(&self) -> bool {
		false
	}
	pub fn status(&self) -> Option<StatusCode> {
		match self.0 {
			Kind::Status(s) => Some(s),
			_ => None,
		}
	}
	pub fn url(&self) -> Option<&Url> {
		self.1.as_ref()
	}
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match &self.0 {
			Kind::Request => f.write_str("error sending request")?,
			Kind::Status(s) if s.is_client_error() => write!(f, "HTTP status client error ({s})")?,
			Kind::Status(s) => write!(f, "HTTP status server error ({s})")?,
			Kind::Decode(e) => write!(f, "error decoding response body: {e}")?,
		}
		match &self.1 {
			Some(u) => write!(f, " for url ({u})"),
			None => Ok(()),
		}
	}
}
impl fmt::Debug for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "reqwest::Error {{ kind: {:?}, url: {:?} }}", self.0, self.1.as_ref().map(|u| u.as_str()))
	}
}
impl std::error::Error for Error {}

#[derive(Clone, Debug, Default)]
pub struct Body(Vec<u8>);
impl Body {
	pub fn as_bytes(&self) -> Option<&[u8]> {
		Some(&self.0)
	}
}
impl From<Vec<u8>> for Body {
	fn from(b: Vec<u8>) -> Self {
		Body(b)
	}
}
impl From<&'static [u8]> for Body {
	fn from(b: &'static [u8]) -> Self {
		Body(b.to_vec())
	}
}
impl From<String> for Body {
	fn from(b: String) -> Self {
		Body(b.into_bytes())
	}
}
impl From<&'static str> for Body {
	fn from(b: &'static str) -> Self {
		Body(b.as_bytes().to_vec())
	}
}

#[derive(Clone, Debug)]
pub struct Request {
	method: Method,
	url: Url,
	headers: Vec<(String, String)>,
	body: Option<Body>,
}

impl Request {
	pub fn new(method: Method, url: Url) -> Self {
		Self { method, url, headers: vec![], body: None }
	}
	pub fn url(&self) -> &Url {
		&self.url
	}
	pub fn url_mut(&mut self) -> &mut Url {
		&mut self.url
	}
	pub fn method(&self) -> &Method {
		&self.method
	}
	pub fn body(&self) -> Option<&Body> {
		self.body.as_ref()
	}
	pub fn try_clone(&self) -> Option<Self> {
		Some(self.clone())
	}
	/// for the registered functions
	pub fn header(&self, name: &str) -> Option<&str> {
		self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.as_str())
	}
}

pub trait IntoUrl {
	fn into_url(self) -> Url;
}
impl IntoUrl for Url {
	fn into_url(self) -> Url {
		self
	}
}
impl IntoUrl for &str {
	fn into_url(self) -> Url {
		self.parse().expect("a URL")
	}
}
impl IntoUrl for String {
	fn into_url(self) -> Url {
		self.parse().expect("a URL")
	}
}
impl IntoUrl for &String {
	fn into_url(self) -> Url {
		self.parse().expect("a URL")
	}
}

#[derive(Clone, Debug, Default)]
pub struct Client {}

impl Client {
	pub fn new() -> Self {
		Self {}
	}
	pub fn builder() -> ClientBuilder {
		ClientBuilder {}
	}
	pub fn get(&self, url: impl IntoUrl) -> RequestBuilder {
		self.request(Method::GET, url)
	}
	pub fn post(&self, url: impl IntoUrl) -> RequestBuilder {
		self.request(Method::POST, url)
	}
	pub fn request(&self, method: Method, url: impl IntoUrl) -> RequestBuilder {
		RequestBuilder { client: self.clone(), request: Request::new(method, url.into_url()) }
	}
	pub async fn execute(&self, request: Request) -> Result<Response> {
		let host = request.url.host_str().unwrap_or("").to_string();
		let f = hosts().read().unwrap().get(&host).cloned();
		match f.and_then(|f| f(&request)) {
			Some((status, body)) => Ok(Response { status: StatusCode(status), body, url: request.url }),
			None => Err(Error(Kind::Request, Some(request.url))),
		}
	}
}

pub struct ClientBuilder {}
impl ClientBuilder {
	pub fn timeout(self, _: Duration) -> Self {
		self
	}
	pub fn build(self) -> Result<Client> {
		Ok(Client {})
	}
}

#[derive(Clone, Debug)]
pub struct RequestBuilder {
	client: Client,
	request: Request,
}

impl RequestBuilder {
	pub fn from_parts(client: Client, request: Request) -> Self {
		Self { client, request }
	}
	pub fn header(mut self, name: impl AsRef<str>, value: impl AsRef<str>) -> Self {
		self.request.headers.push((name.as_ref().into(), value.as_ref().into()));
		self
	}
	pub fn body(mut self, b: impl Into<Body>) -> Self {
		self.request.body = Some(b.into());
		self
	}
	pub fn json<T: serde::Serialize + ?Sized>(self, v: &T) -> Self {
		let b = serde_json::to_vec(v).expect("JSON");
		self.header("Content-type", "application/json").body(b)
	}
	pub fn timeout(self, _: Duration) -> Self {
		self
	}
	pub fn try_clone(&self) -> Option<Self> {
		Some(self.clone())
	}
	pub fn build(self) -> Result<Request> {
		Ok(self.request)
	}
	pub async fn send(self) -> Result<Response> {
		self.client.clone().execute(self.request).await
	}
}

#[derive(Debug)]
pub struct Response {
	status: StatusCode,
	body: Vec<u8>,
	url: Url,
}

impl Response {
	pub fn status(&self) -> StatusCode {
		self.status
	}
	pub fn url(&self) -> &Url {
		&self.url
	}
	pub fn error_for_status(self) -> Result<Self> {
		if self.status.is_client_error() || self.status.is_server_error() {
			Err(Error(Kind::Status(self.status), Some(self.url)))
		} else {
			Ok(self)
		}
	}
	pub fn error_for_status_ref(&self) -> Result<&Self> {
		if self.status.is_client_error() || self.status.is_server_error() {
			Err(Error(Kind::Status(self.status), Some(self.url.clone())))
		} else {
			Ok(self)
		}
	}
	pub async fn text(self) -> Result<String> {
		Ok(String::from_utf8_lossy(&self.body).into_owned())
	}
	pub async fn bytes(self) -> Result<Vec<u8>> {
		Ok(self.body)
	}
	pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
		serde_json::from_slice(&self.body).map_err(|e| Error(Kind::Decode(e.to_string()), Some(self.url)))
	}
}
