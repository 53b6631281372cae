//! Stand-in for the HTTP client: answers come from a function the harness installs.
pub use http::StatusCode;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub type Serve = Arc<dyn Fn(&str) -> Option<(u16, Vec<u8>)> + Send + Sync>;
static SERVE: Mutex<Option<Serve>> = Mutex::new(None);
pub fn install(f: Serve) {
    *SERVE.lock().unwrap_or_else(|e| e.into_inner()) = Some(f);
}
/// answers take their time: how long depends on the address and on this number (0: none)
static SALT: AtomicU64 = AtomicU64::new(0);
pub fn shuffle(n: u64) {
    SALT.store(n, Ordering::Relaxed);
}
struct Wait(u64);
impl Future for Wait {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        c.waker().wake_by_ref();
        Poll::Pending
    }
}
fn wait(u: &str) -> Wait {
    let salt = SALT.load(Ordering::Relaxed);
    if salt == 0 {
        return Wait(0);
    }
    let h = u.bytes().fold(salt, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    Wait((h >> 29) % 9)
}
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct Response {
    status: StatusCode,
    body: Vec<u8>,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn error_for_status(self) -> Result<Response> {
        if self.status.is_success() {
            Ok(self)
        } else {
            Err(Error(format!("status {}", self.status)))
        }
    }
    pub async fn bytes(self) -> Result<bytes::Bytes> {
        Ok(bytes::Bytes::from(self.body))
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
}
pub async fn get<U: AsRef<str>>(url: U) -> Result<Response> {
    wait(url.as_ref()).await;
    let f = SERVE.lock().unwrap_or_else(|e| e.into_inner()).clone();
    match f.and_then(|f| f(url.as_ref())) {
        Some((s, body)) => Ok(Response { status: StatusCode::from_u16(s).map_err(|e| Error(e.to_string()))?, body }),
        None => Err(Error(format!("cannot reach {}", url.as_ref()))),
    }
}
