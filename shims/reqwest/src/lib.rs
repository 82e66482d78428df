//! Offline stand-in for `reqwest`: every request fails.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "no network") } }
impl std::error::Error for Error {}
pub struct Client;
pub struct RequestBuilder;
#[derive(Debug)]
pub struct Response;
#[derive(Debug)]
pub struct StatusCode;
impl StatusCode { pub fn is_success(&self) -> bool { false } }
impl std::fmt::Display for StatusCode { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "503") } }
impl Client {
    pub fn new() -> Self { Client }
    pub fn get<U: AsRef<str>>(&self, _u: U) -> RequestBuilder { RequestBuilder }
    pub fn post<U: AsRef<str>>(&self, _u: U) -> RequestBuilder { RequestBuilder }
}
impl RequestBuilder {
    pub fn json<T: serde::Serialize + ?Sized>(self, _t: &T) -> Self { self }
    pub async fn send(self) -> Result<Response, Error> { Err(Error) }
}
impl Response { pub fn status(&self) -> StatusCode { StatusCode } }
