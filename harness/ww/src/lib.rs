//! The library within a browser's document: P24 and P27, P28, P30, P31.
mod csr;
mod env;
mod left;
mod media;
mod mount;

use std::cell::RefCell;

#[global_allocator]
static ALLOC: left::Counting = left::Counting;

/// Goes on with a case; false when there is nothing left to do. In between, pending tasks are run.
type Step = Box<dyn FnMut(usize) -> bool>;

thread_local! {
    static CASE: RefCell<Option<(usize, Step)>> = const { RefCell::new(None) };
}

#[no_mangle]
pub extern "C" fn start(prop: u32, seed: u32, index: u32) {
    yew::set_custom_panic_hook(Box::new(|p| env::out(format_args!("P {}", p.to_string().replace('\n', "\\n")))));
    let (seed, index) = (seed as u64, index as u64);
    let step: Step = match prop {
        10 => Box::new(move |_| {
            use stylist::{GlobalStyle, Style};
            let mut ids = String::new();
            for i in 0..400 {
                match i % 4 {
                    0 => ids.push_str(GlobalStyle::new(format!("--i: {i};")).unwrap().id()),
                    _ => ids.push_str(Style::new(format!("--i: {i};")).unwrap().get_class_name()),
                }
                ids.push(' ');
            }
            env::out(format_args!("T {index} ids {ids}"));
            false
        }),
        24 => mount::case(seed, index),
        27 => media::case(seed, index),
        28 => csr::case(seed, index, false),
        30 => csr::case(seed, index, true),
        31 => left::case(seed, index),
        32 => Box::new(move |_| {
            for (name, text) in twin::case(seed, index) {
                env::out(format_args!("T {index} {name} {}", text.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")));
            }
            false
        }),
        _ => panic!("no such property"),
    };
    CASE.with(|c| *c.borrow_mut() = Some((0, step)));
}

#[no_mangle]
pub extern "C" fn step() -> u32 {
    let Some((n, mut f)) = CASE.with(|c| c.borrow_mut().take()) else { return 0 };
    if !f(n) {
        return 0;
    }
    CASE.with(|c| *c.borrow_mut() = Some((n + 1, f)));
    1
}

fn element(i: usize) -> web_sys::Element {
    use wasm_bindgen::JsCast;
    env::node(i).unchecked_into()
}
