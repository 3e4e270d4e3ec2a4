//! What the generated surroundings use. Everything here is named by its full path.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use stylist::ast::{Sheet, ToStyleStr};
use stylist::{GlobalStyle, Style, StyleSource};

pub enum Made {
    Sheet(Sheet),
    Style(stylist::Result<Style>),
    Global(stylist::Result<GlobalStyle>),
    Source(StyleSource),
}

/// The CSS of what was made, `K` stands for the class.
#[derive(Default)]
pub struct Out(pub Vec<String>);

impl Out {
    pub fn made(&mut self, m: Made) {
        let scoped = |s: Style| {
            s.unregister();
            s.get_style_str().replace(&format!(".{}", s.get_class_name()), ".K")
        };
        self.0.push(match m {
            Made::Sheet(s) => s.to_style_str(Some("K")),
            Made::Style(s) => s.map_or_else(|e| e.to_string(), scoped),
            Made::Source(s) => Style::new(s).map_or_else(|e| e.to_string(), scoped),
            Made::Global(s) => s.map_or_else(|e| e.to_string(), |s| {
                s.unregister();
                s.get_style_str().to_string()
            }),
        });
    }
    pub fn say(&mut self, s: &str) {
        self.0.push(s.to_string());
    }
}

/// Is there at the second glance.
pub struct Later<T>(pub Option<T>, pub bool);
impl<T: Unpin> Future for Later<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<T> {
        if !std::mem::replace(&mut self.1, true) {
            c.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.0.take().unwrap())
    }
}

pub fn later<T>(t: T) -> Later<T> {
    Later(Some(t), false)
}

pub fn sendable<T: Send>(t: T) -> T {
    t
}

pub fn run<T>(f: impl Future<Output = T>) -> T {
    const TABLE: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &TABLE), |_| (), |_| (), |_| ());
    let waker = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &TABLE)) };
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(t) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return t;
        }
    }
}
