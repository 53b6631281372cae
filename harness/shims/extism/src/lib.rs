//! Stand-in for the plugin host: a plugin is a byte string; calls are answered by a function the harness installs.
pub use extism_convert::{FromBytes, ToBytes};
pub use anyhow::Error;
use std::cell::RefCell;

pub type Answer = Box<dyn FnMut(&[u8], &str, &[u8]) -> Result<Vec<u8>, String>>;
thread_local! { static ANSWER: RefCell<Option<Answer>> = const { RefCell::new(None) }; }
/// what every call made in this thread yields
pub fn install(a: Answer) {
    ANSWER.with(|x| *x.borrow_mut() = Some(a));
}

#[derive(Debug)]
pub struct Plugin {
    wasm: Vec<u8>,
}
pub struct Function;
impl Plugin {
    pub fn new(wasm: impl AsRef<[u8]>, _functions: impl IntoIterator<Item = Function>, _wasi: bool) -> Result<Plugin, Error> {
        Ok(Plugin { wasm: wasm.as_ref().to_vec() })
    }
    pub fn call<'a, 'b, T: ToBytes<'a>, U: FromBytes<'b>>(&'b mut self, name: impl AsRef<str>, input: T) -> Result<U, Error> {
        let bytes = input.to_bytes()?.as_ref().to_vec();
        let r = ANSWER.with(|x| {
            let mut x = x.borrow_mut();
            let f = x.as_mut().ok_or_else(|| anyhow::anyhow!("no plugin host installed"))?;
            f(&self.wasm, name.as_ref(), &bytes).map_err(|e| anyhow::anyhow!(e))
        })?;
        // answers live as long as the process, like the memory of a plugin lives as long as the plugin
        U::from_bytes(Box::leak(r.into_boxed_slice()))
    }
}
