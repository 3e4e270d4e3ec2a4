//! What lies outside of the module: the report, and the document as an observer sees it.
use std::fmt::Display;
use wasm_bindgen::convert::FromWasmAbi;
use wasm_bindgen::{JsCast, JsValue};

#[link(wasm_import_module = "env")]
extern "C" {
    fn say(p: *const u8, n: usize);
    fn ask(p: *const u8, n: usize) -> usize;
    fn answer(p: *mut u8);
    fn container(i: usize) -> u32;
}

/// A line of the report.
pub fn out(line: impl Display) {
    let s = line.to_string();
    unsafe { say(s.as_ptr(), s.len()) }
}

pub fn count(key: &str, n: usize) {
    if n > 0 {
        out(format_args!("N {key} {n}"))
    }
}

pub fn case(shape: &str, nontrivial: bool) {
    out(format_args!("C {} {}", nontrivial as u8, shape.replace('\n', "\\n")))
}

pub fn violation(sig: &str, text: &str) {
    out(format_args!("V {sig} {}", text.replace('\\', "\\\\").replace('\n', "\\n")))
}

pub fn request(s: impl Display) -> String {
    let s = s.to_string();
    unsafe {
        let n = ask(s.as_ptr(), s.len());
        let mut v = vec![0u8; n];
        answer(v.as_mut_ptr());
        String::from_utf8(v).unwrap()
    }
}

pub fn node(i: usize) -> web_sys::Node {
    unsafe { JsValue::from_abi(container(i)) }.unchecked_into()
}

/// `kind` and what it has at first, if not an element.
pub fn container_new(kind: &str) -> usize {
    request(format_args!("container {kind}")).parse().unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kid {
    Style { id: String, text: String },
    Other(String),
}

/// The children of a container.
pub fn kids(i: usize) -> Vec<Kid> {
    parse(&request(format_args!("kids {i}")))
}

fn parse(s: &str) -> Vec<Kid> {
    s.split('\x1e')
        .filter(|m| !m.is_empty())
        .map(|m| {
            let mut p = m.split('\x1f');
            match p.next().unwrap() {
                "S" => Kid::Style { id: p.next().unwrap().into(), text: p.next().unwrap().into() },
                _ => Kid::Other(p.next().unwrap().into()),
            }
        })
        .collect()
}

/// All styles wherever they are: (container they are in, id, text).
pub fn all_styles() -> Vec<(String, String, String)> {
    request("styles")
        .split('\x1e')
        .filter(|m| !m.is_empty())
        .map(|m| {
            let p: Vec<&str> = m.split('\x1f').collect();
            (p[0].into(), p[1].into(), p[2].into())
        })
        .collect()
}
