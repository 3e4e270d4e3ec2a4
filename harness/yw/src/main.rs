//! Server-side rendered component trees: P21 (managers), P22 (Global), P23 (shipped style data), P29 (media queries).
#![allow(clippy::type_complexity)]
mod mem;

use oracle::css;
use oracle::report::{Opts, Report};
use oracle::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};
use trees::comps::{Kind, Mgrs, NodeProps, Tree};
use trees::world::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

/// The captured styles as the static markup has them: (id, CSS).
fn captured(d: &StyleData) -> Vec<(String, String)> {
    let mut s = String::new();
    d.write_static_markup(&mut s).unwrap();
    s.split("<style data-style=\"")
        .skip(1)
        .map(|m| {
            let (id, css) = m.split_once("\">").unwrap();
            (id.to_string(), css.strip_suffix("</style>").unwrap_or(css).to_string())
        })
        .collect()
}

struct Rendered {
    html: String,
    data: Vec<Option<StyleData>>,
    mgrs: Vec<StyleManager>,
}

async fn render(tree: Rc<Tree>, specs: &[MgrSpec], hydratable: bool) -> Rendered {
    let mut readers: Vec<Option<StaticReader>> = vec![];
    let mut mgrs = vec![];
    for s in specs {
        let mut b = StyleManager::builder().prefix(s.prefix.clone().into());
        let mut rd = None;
        if s.writer {
            let (w, r) = render_static();
            b = b.writer(w);
            rd = Some(r);
        }
        readers.push(rd);
        mgrs.push(b.build().unwrap());
    }
    let props = NodeProps { tree, mgrs: Mgrs(Rc::new(mgrs.clone())) };
    let html = yew::LocalServerRenderer::<trees::comps::Node>::with_props(props).hydratable(hydratable).render().await;
    Rendered { html, data: readers.into_iter().map(|m| m.map(|m| m.read_style_data())).collect(), mgrs }
}

fn runtime<T>(f: impl std::future::Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f)
}

fn states(html: &str) -> Vec<Vec<u8>> {
    use base64ct::{Base64, Encoding};
    html.split("<script type=\"application/x-yew-comp-state\">").skip(1).filter_map(|m| Base64::decode_vec(m.split("</script>").next().unwrap()).ok()).collect()
}

fn check(prop: &str, w: &World, texts: &[Text], out: &Rendered, counts: &mut BTreeMap<&'static str, u64>) -> Result<(), String> {
    let els = elements(&out.html)?;
    let caps: Vec<Option<Vec<(String, String)>>> = out.data.iter().map(|m| m.as_ref().map(captured)).collect();
    let mut add = |k: &'static str, n: usize| *counts.entry(k).or_default() += n as u64;
    // what each manager should have captured
    let mut want: Vec<BTreeSet<(String, bool, String)>> = vec![BTreeSet::new(); w.mgrs.len()];
    for (l, ctx) in &w.leaves {
        for (source, global, meaning, n) in expected(l, texts) {
            if let Some(m) = ctx {
                want[*m].insert((source.clone(), global, meaning.clone()));
            }
            let Some(n) = n else { continue };
            let attrs = els.get(&n).ok_or(format!("element {n} is not rendered"))?;
            let class = attrs.get("class").map(|m| m.as_str()).unwrap_or("");
            let classes: Vec<&str> = class.split_whitespace().filter(|m| !m.contains(".rs:") && *m != "other").collect();
            let [class] = classes[..] else { return Err(format!("element {n} ({:?}) has the classes {classes:?}", l.kind)) };
            match ctx {
                Some(m) => {
                    if !home(class).starts_with(&format!("{}-", w.mgrs[*m].prefix)) {
                        return Err(format!("element {n} ({:?}) has class {class}, its nearest manager has prefix {}", l.kind, w.mgrs[*m].prefix));
                    }
                    if let Some(c) = &caps[*m] {
                        add("classes_resolved", 1);
                        let Some((_, css)) = c.iter().find(|c| c.0 == class) else {
                            let who: Vec<usize> = (0..caps.len()).filter(|i| caps[*i].as_ref().is_some_and(|c| c.iter().any(|c| c.0 == class))).collect();
                            return Err(format!("class {class} of element {n} ({:?}) is not captured by its nearest manager {m}, but by {who:?}", l.kind));
                        };
                        if normal(class, css) != meaning {
                            return Err(format!("class {class} of element {n} ({:?}) says\n{}\ninstead of\n{meaning}", l.kind, normal(class, css)));
                        }
                    }
                    if source.starts_with("text ") {
                        add("recreated", 1);
                        let again = Style::new_with_manager(&*l.text, out.mgrs[*m].clone()).unwrap();
                        if again.get_class_name() != class {
                            return Err(format!("element {n} ({:?}) has class {class}, manager {m} knows this style as {}", l.kind, again.get_class_name()));
                        }
                    }
                }
                None => {
                    add("default_manager", 1);
                    if !home(class).starts_with("stylist-") || caps.iter().flatten().flatten().any(|c| c.0 == class) {
                        return Err(format!("element {n} ({:?}) is outside of all providers, but has class {class}", l.kind));
                    }
                    if source.starts_with("text ") {
                        let again = Style::new_with_manager(&*l.text, StyleManager::default()).unwrap();
                        if again.get_class_name() != class {
                            return Err(format!("element {n} ({:?}) has class {class}, the default manager knows this style as {}", l.kind, again.get_class_name()));
                        }
                    }
                }
            }
        }
    }
    for (n, fallback) in &w.medias {
        add("media_fallbacks", 1);
        let a = els.get(&n.to_string()).ok_or(format!("media query {n} is not rendered"))?;
        if a.get("data-wide").map(|m| m.as_str()) != Some(if *fallback { "true" } else { "false" }) {
            return Err(format!("media query {n} with fallback {fallback} renders {a:?}"));
        }
    }
    // exactly what is needed is captured, once
    for (m, c) in caps.iter().enumerate() {
        let Some(c) = c else { continue };
        let mut got: Vec<(bool, String)> = vec![];
        let mut ids = BTreeSet::new();
        for (id, css) in c {
            if !ids.insert(id.clone()) {
                return Err(format!("manager {m} captured {id} twice"));
            }
            let global = id.starts_with(&format!("{}-global-", w.mgrs[m].prefix));
            got.push((global, if global { read(css) } else { normal(id, css) }));
        }
        let mut exp: Vec<(bool, String)> = want[m].iter().map(|x| (x.1, x.2.clone())).collect();
        got.sort();
        exp.sort();
        add("captured_styles", got.len());
        add("captured_global_styles", got.iter().filter(|m| m.0).count());
        if got != exp {
            let extra: Vec<_> = got.iter().filter(|g| !exp.contains(g)).take(2).collect();
            let missing: Vec<_> = exp.iter().filter(|g| !got.contains(g)).take(2).collect();
            return Err(format!("manager {m} captured {} styles, {} expected\nsuperfluous: {extra:#?}\nmissing: {missing:#?}", got.len(), exp.len()));
        }
    }
    // the shipped data: one piece for each provider, in the order they end
    if prop == "P23" || prop == "P22" {
        let datas: Vec<StyleData> = states(&out.html)
            .iter()
            .filter_map(|s| match bincode::serde::decode_from_slice::<(Option<StyleData>, Option<()>), _>(s, bincode::config::standard()) {
                Ok(((Some(d), Some(())), n)) if n == s.len() => Some(d),
                _ => None,
            })
            .collect();
        if datas.len() != w.providers.len() {
            return Err(format!("the markup ships style data {} times, {} providers were rendered {:?}", datas.len(), w.providers.len(), states(&out.html).iter().map(|m| m.iter().take(40).copied().collect::<Vec<_>>()).collect::<Vec<_>>()));
        }
        for ((m, within), d) in w.providers.iter().zip(&datas) {
            let shipped: Vec<String> = captured(d).into_iter().map(|m| m.0).collect();
            let Some(full) = &caps[*m] else {
                if !shipped.is_empty() {
                    return Err(format!("manager {m} captures nothing but ships {shipped:?}"));
                }
                continue;
            };
            let full: BTreeMap<&str, &str> = full.iter().map(|(a, b)| (&a[..], &b[..])).collect();
            add("providers_shipping", 1);
            add("shipped_styles", shipped.len());
            if let Some(x) = shipped.iter().find(|x| !full.contains_key(&x[..])) {
                return Err(format!("{x} is shipped, but manager {m} did not capture it"));
            }
            // loaded into a fresh manager, each style is found again
            let fresh = StyleManager::builder().prefix(w.mgrs[*m].prefix.clone().into()).build().unwrap();
            fresh.load_style_data(d);
            for (l, ctx) in &w.leaves[within.clone()] {
                if *ctx != Some(*m) {
                    continue;
                }
                let source = match l.kind {
                    Kind::UseStyleText | Kind::UseStyleSheet | Kind::UseStyleOwned | Kind::GlobalText => Some(&*l.text),
                    _ => None,
                };
                if l.kind == Kind::GlobalText {
                    let s = GlobalStyle::new_with_manager(source.unwrap(), fresh.clone()).unwrap();
                    let id = s.id().to_string();
                    add("globals_hydrated_again", 1);
                    if !shipped.contains(&id) || full.get(&id[..]).map(|m| css::unescape(m)) != Some(css::unescape(s.get_style_str())) {
                        return Err(format!("global style {} rendered below a provider of manager {m} is {id} after loading what the provider shipped, {shipped:?}", l.n));
                    }
                }
                for (_, global, meaning, n) in expected(l, texts) {
                    if global && !shipped.iter().any(|s| s.starts_with(&format!("{}-global-", w.mgrs[*m].prefix)) && read(full[&s[..]]) == meaning) {
                        return Err(format!("global style {} ({:?}) rendered below a provider of manager {m} is not shipped by it", l.n, l.kind));
                    }
                    let Some(n) = n else { continue };
                    let a = els[&n]["class"].split_whitespace().find(|a| home(a).starts_with(&format!("{}-", w.mgrs[*m].prefix))).unwrap_or("");
                    if !shipped.iter().any(|s| s == a) {
                        return Err(format!("element {n} ({:?}) has class {a}, the provider around it ships {shipped:?}", l.kind));
                    }
                    if let (Some(t), true) = (source, prop == "P23") {
                        add("hydrated_again", 1);
                        let s = Style::new_with_manager(t, fresh.clone()).unwrap();
                        if s.get_class_name() != a || css::unescape(s.get_style_str()) != css::unescape(full[a]) {
                            return Err(format!("the style of element {n} is {} after loading the shipped data, it was rendered as {a}", s.get_class_name()));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// The pages of P30 as the server has them.
fn markup(seed: u64, from: usize, to: usize) {
    use trees::comps::{Root, RootProps};
    for i in from..to {
        let mut r = Rng::derive(seed, "P30", i as u64);
        let texts = texts(&mut r, 5);
        let w = world(&mut r, &texts, "P30");
        let out = runtime(async {
            let mut readers = vec![];
            let mut mgrs = vec![];
            for s in &w.mgrs {
                let (wr, rd) = render_static();
                readers.push(rd);
                mgrs.push(StyleManager::builder().prefix(s.prefix.clone().into()).writer(wr).build().unwrap());
            }
            let start = NodeProps { tree: w.trees[0].clone(), mgrs: Mgrs(Rc::new(mgrs.clone())) };
            let html = yew::LocalServerRenderer::<Root>::with_props(RootProps { start }).render().await;
            let mut head = String::new();
            for rd in readers {
                rd.read_style_data().write_static_markup(&mut head).unwrap();
            }
            (head, html)
        });
        println!("{}", serde_json::json!({ "i": i, "head": out.0, "body": out.1 }));
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|m| m.as_str()) == Some("markup") {
        return markup(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap());
    }
    let o = Opts::parse();
    if o.prop == "P25" {
        std::process::exit(mem::p25(o));
    }
    let prop = o.prop.clone();
    let (seed, n) = (o.seed, o.n(900, 30_000));
    let rule = match prop.as_str() {
        "P21" => "random trees of providers, suspended parts and components making styles in 17 ways, rendered on the server, several at a time on each of several threads; each rendered class is traced to the manager that captured it; non-trivial: a leaf below a provider; distinct by tree",
        "P22" => "the same trees with Global components; captured global styles of each manager against the set the tree asks for; non-trivial: a Global below a provider; distinct by tree",
        "P23" => "hydratable renderings; the state in the markup is decoded, loaded into a fresh manager and the styles created again; non-trivial: data was shipped; distinct by tree",
        _ => "hydratable and plain renderings of prepared media queries; non-trivial: a media query in the tree; distinct by tree",
    };
    let mut rep = Report::new(o, rule);
    let threads = 4;
    let results: Vec<Vec<(String, bool, Result<(), String>, BTreeMap<&'static str, u64>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let prop = prop.clone();
                s.spawn(move || {
                    let mut out = vec![];
                    let mut i = t;
                    while i < n {
                        let r = &mut Rng::derive(seed, "YEW", i as u64);
                        i += threads;
                        oracle::report::alive();
                        let tx = texts(r, 5);
                        // several renderings take turns on this thread
                        let worlds: Vec<(World, bool)> = (0..3).map(|_| (world(r, &tx, &prop), prop == "P23" || prop == "P22" || r.chance(1, 2))).collect();
                        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            runtime(async {
                                let [a, b, c] = &worlds[..] else { unreachable!() };
                                let (x, y, z) = tokio::join!(render(a.0.trees[0].clone(), &a.0.mgrs, a.1), render(b.0.trees[0].clone(), &b.0.mgrs, b.1), render(c.0.trees[0].clone(), &c.0.mgrs, c.1));
                                [x, y, z]
                            })
                        }));
                        let done = match done {
                            Ok(m) => m,
                            Err(e) => {
                                let e = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|m| m.to_string())).unwrap_or_default();
                                out.push((worlds[0].0.shape.clone(), true, Err(format!("rendering panicked: {e}")), BTreeMap::new()));
                                continue;
                            }
                        };
                        for ((w, _), d) in worlds.iter().zip(&done) {
                            let mut counts = BTreeMap::new();
                            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(&prop, w, &tx, d, &mut counts))).unwrap_or_else(|e| Err(format!("panicked: {:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|m| m.to_string())))));
                            let nontrivial = match prop.as_str() {
                                "P21" => w.leaves.iter().any(|m| m.1.is_some()),
                                "P22" => w.leaves.iter().any(|m| m.1.is_some() && m.0.kind.global()),
                                "P23" => counts.contains_key("providers_shipping"),
                                _ => !w.medias.is_empty(),
                            };
                            out.push((w.shape.clone(), nontrivial, res, counts));
                        }
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    match prop.as_str() {
        "P21" => {
            rep.require("classes_resolved", 500);
            rep.require("default_manager", 50);
            rep.require("recreated", 100);
        }
        "P22" => rep.require("captured_global_styles", 200),
        "P23" => {
            rep.require("providers_shipping", 200);
            rep.require("hydrated_again", 200);
        }
        _ => rep.require("media_fallbacks", 200),
    }
    for (shape, nontrivial, res, counts) in results.into_iter().flatten() {
        rep.case(&shape, nontrivial);
        rep.sample(shape.clone());
        for (k, v) in counts {
            rep.count(k, v);
        }
        if let Err(e) = res {
            if !rep.too_many() {
                rep.violation("tree", format!("{e}\ntree: {shape}"));
            }
        }
    }
    std::process::exit(rep.finish());
}
