//! P34: what elements say about the place their style was written at. `loc dump` prints the classes of every element of
//! the generated components (directory $GEN at build time), `loc P34 …` judges what several builds print.
#![allow(unused)]
use oracle::report::{Opts, Report};
use std::collections::{BTreeMap, HashMap};
use std::process::Command;

#[macro_use]
mod page {
    pub use std::rc::Rc;
    pub use stylist::ast::sheet;
    pub use stylist::manager::StyleManager;
    pub use stylist::yew::{styled_component, styled_component_impl, ManagerProvider};
    pub use stylist::{css, css as renamed, StyleSource};
    pub use yew::prelude::*;

    macro_rules! mine {
        ($n:expr) => {
            stylist::css!("--site: ${n};", n = $n)
        };
    }
    macro_rules! outer {
        ($n:expr) => {{
            let n = $n;
            mine!(n)
        }};
    }
    macro_rules! pass {
        ($e:expr) => {
            $e
        };
    }

    pub fn keep<T>(t: T) -> T {
        t
    }

    pub struct Holder {
        pub s: StyleSource,
    }

    #[derive(Properties, PartialEq)]
    pub struct ClassyProps {
        pub n: AttrValue,
        pub class: Classes,
    }
    #[component]
    pub fn Classy(p: &ClassyProps) -> Html {
        html! { <i data-n={p.n.clone()} class={p.class.clone()}></i> }
    }

    #[derive(Properties, PartialEq)]
    pub struct HandedProps {
        pub a: AttrValue,
        pub b: AttrValue,
        pub css: StyleSource,
    }
    #[component]
    pub fn Handed(p: &HandedProps) -> Html {
        html! { <><i data-n={p.a.clone()} class={p.css.clone()}></i><i data-n={p.b.clone()} class={classes!(p.css.clone(), "other")}></i></> }
    }

    #[derive(Properties, PartialEq)]
    pub struct ReadsProps {
        pub n: AttrValue,
    }
    #[component]
    pub fn Reads(p: &ReadsProps) -> Html {
        let s = use_context::<StyleSource>().unwrap();
        html! { <i data-n={p.n.clone()} class={s}></i> }
    }

    #[derive(Properties, PartialEq)]
    pub struct RootProps {
        pub case: usize,
        pub mgr: StyleManager,
    }
    #[component]
    pub fn Root(p: &RootProps) -> Html {
        let f = super::cases().find(|c| c.0 == p.case).unwrap().1;
        html! { <ManagerProvider manager={p.mgr.clone()}>{f()}</ManagerProvider> }
    }
}
mod a {
    use super::page::*;
    include!(concat!(env!("GEN"), "/a.rs"));
}
mod b {
    use super::page::*;
    include!(concat!(env!("GEN"), "/b.rs"));
}

fn cases() -> impl Iterator<Item = &'static (usize, fn() -> yew::Html)> {
    a::CASES.iter().chain(b::CASES)
}

fn runtime<T>(f: impl std::future::Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f)
}

fn attr<'a>(tag: &'a str, name: &str) -> &'a str {
    tag.split_once(&format!(" {name}=\"")).and_then(|m| m.1.split_once('"')).map_or("", |m| m.0)
}

/// Lines `case element classes`, and `= class CSS` for the styles they come with.
fn dump() {
    for (k, _) in cases() {
        let (w, r) = stylist::manager::render_static();
        let mgr = stylist::manager::StyleManager::builder().prefix("app".into()).writer(w).build().unwrap();
        let html = runtime(yew::LocalServerRenderer::<page::Root>::with_props(page::RootProps { case: *k, mgr }).hydratable(false).render());
        for tag in html.split('<').filter(|m| m.starts_with("i ")) {
            println!("{k}\t{}\t{}", attr(tag, "data-n"), attr(tag, "class"));
        }
        let mut s = String::new();
        r.read_style_data().write_static_markup(&mut s).unwrap();
        for m in s.split("<style data-style=\"").skip(1) {
            let (id, css) = m.split_once("\">").unwrap();
            println!("=\t{id}\t{}", css.replace(['\n', '\t'], " "));
        }
    }
    println!("end\t\t");
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("dump") {
        return dump();
    }
    let o = Opts::parse();
    let dir = env!("GEN");
    let table = std::fs::read_to_string(format!("{dir}/places.tsv")).unwrap();
    let mut shapes: BTreeMap<usize, String> = BTreeMap::new();
    let mut elements: Vec<(usize, String, Vec<usize>)> = vec![];
    let mut places: HashMap<usize, String> = HashMap::new();
    for l in table.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "C" => drop(shapes.insert(f[1].parse().unwrap(), f[2].into())),
            "E" => elements.push((f[1].parse().unwrap(), f[2].into(), f[3].split(',').map(|m| m.parse().unwrap()).collect())),
            _ => drop(places.insert(f[1].parse().unwrap(), format!("{}:{}:{}", f[2], f[3], f[4]))),
        }
    }
    let mut rep = Report::new(o, "generated components using a StyleSource, written in many ways and places and taken many ways, rendered in three builds; non-trivial: the source is moved somewhere before it is used, or the element is in another component; distinct by the way");
    rep.require("places_compared", 100);
    rep.require("elements_without_place", 200);
    for (what, bin) in rep.opts.rest.clone().iter().filter_map(|m| m.split_once('\t')) {
        let out = Command::new(bin).arg("dump").output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        if !out.status.success() || !text.lines().any(|l| l.starts_with("end\t")) {
            rep.violation(what, format!("rendering failed in the build {what}: {}\n{}", out.status, String::from_utf8_lossy(&out.stderr)));
            continue;
        }
        let mut got: HashMap<&str, &str> = HashMap::new();
        let mut css: HashMap<&str, &str> = HashMap::new();
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f[0] == "=" {
                css.insert(f[1], f[2]);
            } else if f[0] != "end" {
                got.insert(f[1], f[2]);
            }
        }
        for (k, e, sites) in &elements {
            let shape = &shapes[k];
            rep.case(&format!("{what}: {shape}"), shape.split(", ").count() > 3);
            let Some(words) = got.get(&**e) else {
                rep.violation(&format!("{what}:{k}"), format!("element {e} is not rendered\n{shape}"));
                continue;
            };
            let words: Vec<&str> = words.split_whitespace().filter(|m| *m != "other").collect();
            let (mut at, mut classes): (Vec<&str>, Vec<&str>) = words.iter().partition(|m| m.contains(':') || m.contains('/'));
            let mut want: Vec<&str> = if what == "located" { sites.iter().map(|s| &*places[s]).collect() } else { vec![] };
            at.sort_unstable();
            want.sort_unstable();
            let say = |m: String| format!("{m}\nelement {e} has the classes {words:?} in the build {what}\n{shape}\nwritten at {:?}", sites.iter().map(|s| &places[s]).collect::<Vec<_>>());
            if at != want {
                rep.violation(&format!("{what}:{k}"), say("the places are wrong".into()));
                continue;
            }
            rep.count("places_compared", at.len() as u64);
            rep.count("elements_without_place", (what != "located") as u64);
            if classes.len() != sites.len() {
                rep.violation(&format!("{what}:{k}"), say(format!("{} styles, {} classes", sites.len(), classes.len())));
                continue;
            }
            for c in &classes {
                let Some(css) = css.get(c) else { continue };
                rep.count("styles_compared", 1);
                if !sites.iter().any(|s| css.contains(&format!("--site: {s};")) || css.contains(&format!("--site:{s};"))) {
                    rep.violation(&format!("{what}:{k}"), say(format!("class {c} says {css}")));
                }
            }
        }
    }
    std::process::exit(rep.finish());
}
