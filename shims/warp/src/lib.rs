//! Offline stand-in for `warp`: compiles the server code; serving is never reached by the checks.
pub struct Any;
pub trait Filter: Sized {
    fn and<T>(self, _o: T) -> Any { Any }
    fn or<T>(self, _o: T) -> Any { Any }
    fn map<F>(self, _f: F) -> Any { Any }
}
impl Filter for Any {}
pub fn path(_p: &str) -> Any { Any }
pub fn get() -> Any { Any }
pub fn post() -> Any { Any }
pub mod body { pub fn bytes() -> super::Any { super::Any } }
pub mod http { pub struct StatusCode; impl StatusCode { pub const OK: StatusCode = StatusCode; } }
pub mod reply { pub fn with_status<T>(t: T, _s: super::http::StatusCode) -> T { t } }
pub struct Server;
pub fn serve(_f: Any) -> Server { Server }
impl Server { pub async fn run<T>(self, _a: T) { unimplemented!("no network in this build") } }
