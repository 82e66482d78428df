//! Offline stand-in for `axum`: compiles the server code; serving is never reached by the checks.
use std::marker::PhantomData;
pub struct Json<T>(pub T);
pub mod extract { pub struct State<S>(pub S); }
pub mod routing {
    use super::*;
    pub struct MethodRouter<S>(pub(crate) PhantomData<S>);
    pub fn get<S, Fut, H: Fn() -> Fut>(_h: H) -> MethodRouter<S> { MethodRouter(PhantomData) }
    pub fn post<S, J, Fut, H: Fn(extract::State<S>, Json<J>) -> Fut>(_h: H) -> MethodRouter<S> { MethodRouter(PhantomData) }
}
pub struct Router<S>(PhantomData<S>);
pub struct App;
impl<S> Router<S> {
    pub fn new() -> Self { Router(PhantomData) }
    pub fn route(self, _p: &str, _r: routing::MethodRouter<S>) -> Self { self }
    pub fn with_state(self, _s: S) -> App { App }
}
impl App { pub fn into_make_service(self) -> Self { self } }
pub struct Serve;
pub fn serve(_l: tokio::net::TcpListener, _a: App) -> Serve { Serve }
impl Serve { pub async fn with_graceful_shutdown<F: std::future::Future>(self, _f: F) -> std::io::Result<()> { unimplemented!("no network in this build") } }
