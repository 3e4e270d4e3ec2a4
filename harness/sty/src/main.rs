//! P36: generated styled components and hooks ($GEN at build time), in three editions.
use oracle::css;
use oracle::report::{Opts, Report};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use stylist::manager::{render_static, StyleManager};
use stylist::yew::ManagerProvider;
use yew::prelude::*;

struct Want {
    case: usize,
    /// what is special about it
    note: &'static str,
    /// CSS and text of the elements
    elements: &'static [(&'static str, &'static str)],
}
include!(concat!(env!("GEN"), ".want"));

#[derive(Properties, Clone)]
struct Page {
    run: fn() -> Html,
    mgr: StyleManager,
}
impl PartialEq for Page {
    fn eq(&self, _: &Page) -> bool {
        false
    }
}
/// Runs the case below its manager.
#[function_component]
fn Host(p: &Page) -> Html {
    html! { <ManagerProvider manager={p.mgr.clone()}>{(p.run)()}</ManagerProvider> }
}

/// The elements of the case as rendered with a manager of their own: the CSS their class has there, and their text.
fn render(run: fn() -> Html, prefix: &str) -> Vec<(String, String)> {
    let (w, r) = render_static();
    let mgr = StyleManager::builder().prefix(prefix.to_string().into()).writer(w).build().unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let html = tokio::task::LocalSet::new().block_on(&rt, yew::LocalServerRenderer::<Host>::with_props(Page { run, mgr }).hydratable(false).render());
    let mut s = String::new();
    r.read_style_data().write_static_markup(&mut s).unwrap();
    let known: BTreeMap<String, String> = s.split("<style data-style=\"").skip(1).map(|m| m.split_once("\">").unwrap()).map(|(id, css)| (id.to_string(), css.strip_suffix("</style>").unwrap_or(css).replace(&format!(".{id}"), ".K"))).collect();
    html.split("<i").skip(1).map(|m| {
        let (attrs, rest) = m.split_once('>').unwrap();
        let text = rest.split('<').next().unwrap().to_string();
        let class = attrs.split("class=\"").nth(1).and_then(|m| m.split('"').next()).unwrap_or("");
        let class: Vec<&str> = class.split_whitespace().filter(|m| !m.contains(".rs:")).collect();
        let text_of = match class[..] {
            [c] => known.get(c).map_or(format!("the manager does not know {c}"), |m| css::read(m).map(|m| css::show(&m)).unwrap_or_else(|e| format!("{e}: {m}"))),
            _ => format!("classes {class:?}"),
        };
        (text_of, text)
    }).collect()
}

fn main() {
    let o = Opts::parse();
    let mut rep = Report::new(o, "generated function components and hooks with css! in all places, marked as styled, compiled in the editions 2018, 2021 and 2024, rendered below managers of their own; non-trivial: something about them is special; distinct by what is special");
    rep.require("elements_compared", 300);
    rep.require("without_prelude", 30);
    rep.require("hooks", 60);
    let list = rep.opts.rest.clone();
    let mut refused = 0;
    if let Some(i) = list.iter().position(|m| m == "--rejected") {
        let lines = std::fs::read_to_string(&list[i + 1]).unwrap();
        let all: BTreeMap<&str, &str> = lines.lines().filter_map(|l| l.split_once('\t')).collect();
        for (k, m) in &all {
            // what is refused without the mark says nothing
            if k.starts_with('p') {
                refused += 1;
            } else if !all.contains_key(&*format!("p{k}")) {
                let w = WANT.iter().find(|w| w.case.to_string() == *k);
                rep.violation(&format!("case:{k}"), format!("refused by the compiler, but taken without the mark: {m}\n{}\n{}", w.map_or("", |w| w.note), source(k)));
            }
        }
    }
    rep.count("refused_without_the_mark", refused);
    for (edition, cases) in [("2018", sty18::CASES), ("2021", sty21::CASES), ("2024", sty24::CASES)] {
        for (k, f) in cases {
            let w = WANT.iter().find(|w| w.case == *k).unwrap();
            if edition == "2018" && *k < 3 {
                rep.sample(source(&k.to_string()));
            }
            rep.case(&format!("{edition}: {}", w.note), !w.note.is_empty());
            rep.count("without_prelude", w.note.contains("no prelude") as u64);
            rep.count("hooks", w.note.contains("hook ") as u64);
            let want: Vec<(String, String)> = w.elements.iter().map(|m| (m.0.to_string(), m.1.to_string())).collect();
            for prefix in ["first", "second", "first"] {
                let say = |m: String| format!("{m}\nedition {edition}: {}\n{}", w.note, source(&k.to_string()));
                match catch_unwind(AssertUnwindSafe(|| render(*f, prefix))) {
                    Err(_) => rep.violation(&format!("case:{k}"), say("panicked".into())),
                    Ok(got) => {
                        rep.count("elements_compared", got.len() as u64);
                        if got != want {
                            rep.violation(&format!("case:{k}"), say(format!("the elements differ\nexpected: {want:#?}\ngot:      {got:#?}")));
                        }
                    }
                }
            }
        }
    }
    std::process::exit(rep.finish());
}

fn source(k: &str) -> String {
    let all = std::fs::read_to_string(env!("GEN")).unwrap_or_default();
    let of = |k: String| all.split("// case ").find(|m| m.starts_with(&format!("{k}\n"))).map(|m| m.to_string());
    of(k.to_string()).or_else(|| of(format!("p{k}")).map(|m| format!("without the mark: {m}"))).unwrap_or_default()
}
