use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static QUIET: Cell<u32> = const { Cell::new(0) });

/// Panics of the code under test are results, not noise; panics of the harness stay visible.
pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|m| m.get()) == 0 {
            old(i);
        }
    }));
}

/// Runs code under test; a panic becomes its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|m| m.set(m.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|m| m.set(m.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// JSON of any depth (serde_json gives up at 128 levels by default).
pub fn from_json<T: serde::de::DeserializeOwned>(s: &str) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    T::deserialize(&mut d)
}
