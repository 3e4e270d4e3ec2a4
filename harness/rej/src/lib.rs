//! The invocations of the file named by $GEN.
#![allow(unused, clippy::all)]
use std::fmt;

pub fn pick<'a>(k: usize, v: &[&'a str]) -> &'a str {
    v[k]
}
pub struct Slow<'a>(&'a str);
pub struct Padded<'a>(&'a str);
impl fmt::Display for Slow<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl fmt::Display for Padded<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
pub struct Holder {
    pub text: String,
}
pub const MAIN_WIDTH: u32 = 77;
pub static WORDS: [&str; 3] = ["one", "two", "three"];
thread_local!(static NOW: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
/// The index of the values in use, from nowhere near the macro.
pub fn now_k() -> usize {
    NOW.with(|m| m.get())
}
pub fn now(v: &[&'static str]) -> &'static str {
    v[now_k()]
}
#[derive(Clone, Copy)]
pub struct Now(&'static [&'static str]);
impl fmt::Display for Now {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(now(self.0))
    }
}
macro_rules! now_text {
    ($($t:tt)*) => {
        now(&[$($t)*])
    };
}
pub fn tick<T>(n: usize, v: T) -> T {
    v
}
#[derive(Debug, Clone)]
pub struct NoDisplay;
pub struct Shown(std::cell::Cell<u8>);
impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0.get())
    }
}

include!(env!("GEN"));
