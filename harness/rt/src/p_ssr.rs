//! P13 capture, P14 markup, P15 hydration.
use crate::p_mgr::*;
use crate::util::guard;
use oracle::css;
use oracle::report::{Opts, Report};
use oracle::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use stylist::ast::{Sheet, ToStyleStr};
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist::Style;

/// Reads markup as an HTML parser would: `(data-style, text)` of each style element. Anything
/// that is not a sequence of plain style elements is an error.
pub fn elements(html: &str) -> Result<Vec<(String, String)>, String> {
    let lower = html.to_ascii_lowercase();
    let mut out = vec![];
    let mut i = 0;
    while i < html.len() {
        let rest = &html[i..];
        let show = |s: &str| s.chars().take(80).collect::<String>();
        let Some(r) = rest.strip_prefix("<style") else { return Err(format!("markup outside of a style element: {:?}", show(rest))) };
        let r = r.trim_start();
        let Some(r) = r.strip_prefix("data-style=") else { return Err(format!("unexpected attribute: {:?}", show(r))) };
        let q = r.chars().next().unwrap_or(' ');
        if q != '"' && q != '\'' {
            return Err("attribute is not quoted".into());
        }
        let Some(end) = r[1..].find(q) else { return Err("attribute is not closed".into()) };
        let id = r[1..1 + end].to_string();
        let Some(r) = r[2 + end..].trim_start().strip_prefix('>') else { return Err(format!("more than one attribute: {:?}", show(&r[2 + end..]))) };
        let start = html.len() - r.len();
        // raw text ends at `</style` followed by whitespace, `/` or `>`
        let mut j = start;
        let stop = loop {
            let Some(k) = lower[j..].find("</style") else { return Err("style element is not closed".into()) };
            let k = j + k;
            match lower.as_bytes().get(k + 7) {
                Some(b'\t' | b'\n' | 0x0c | b'\r' | b' ' | b'/' | b'>') => break k,
                None => return Err("style element is not closed".into()),
                _ => j = k + 7,
            }
        };
        let Some(close) = html[stop..].find('>') else { return Err("end tag is not closed".into()) };
        out.push((id, html[start..stop].to_string()));
        i = stop + close + 1;
    }
    Ok(out)
}

fn json(d: &StyleData) -> serde_json::Value {
    serde_json::to_value(d).unwrap()
}

/// The ids of what the serialized data is read back as, in order (what the data looks like in between is its own business).
fn data_ids(d: &StyleData) -> Vec<String> {
    let again = serde_json::to_string(d).ok().and_then(|m| crate::util::from_json::<StyleData>(&m).ok());
    let Some(again) = again else { return vec!["unreadable".into()] };
    let mut s = String::new();
    again.write_static_markup(&mut s).unwrap();
    elements(&s).map(|v| v.into_iter().map(|m| m.0).collect()).unwrap_or_else(|e| vec![e])
}

pub fn p13(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(2000, 60_000));
    let mut rep = Report::new(o, "random histories of creating, repeating, unregistering and re-creating styles on managers with and without a writer; the captured data is read at a random moment, on this or on another thread while creation continues, and compared with the log of first creations; non-trivial: a capture of at least two styles; distinct by captured markup with ids renamed");
    rep.require("captured_styles", 3000);
    rep.require("snapshots_before_the_end", 50);
    rep.require("re_created", 100);
    rep.require("cross_thread_reads", 50);
    let mut rp = Rng::derive(seed, "P13p", 0);
    let p = pool(&mut rp, 60);
    let large = pool(&mut rp, 800);
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P13", i as u64);
        let long = i % 100 == 99;
        let p = if long { &large } else { &p };
        let mut a = new_mgr(&mut r, true);
        let mut b = new_mgr(&mut r, true);
        let c = new_mgr(&mut r, false);
        let mut log: Vec<Vec<(String, String, bool)>> = vec![vec![], vec![]];
        let mut known: Vec<HashMap<Key, H>> = vec![HashMap::new(), HashMap::new(), HashMap::new()];
        let steps = if long { r.range(300, 2500) } else { r.range(2, 30) };
        let cut = r.below(steps + 1);
        let thread_at = r.chance(1, 6);
        let mut snap: Option<(usize, usize, StyleData)> = None;
        let mut handle: Option<(usize, usize, std::thread::JoinHandle<StyleData>)> = None;
        let mut hist = vec![];
        let mut bad = None;
        for step in 0..steps {
            if step == cut {
                let g = r.below(2);
                let m = if g == 0 { &mut a } else { &mut b };
                let rd = m.reader.take().unwrap();
                if thread_at {
                    let spin = r.below(3000);
                    handle = Some((g, log[g].len(), std::thread::spawn(move || {
                        for _ in 0..spin {
                            std::hint::spin_loop();
                        }
                        rd.read_style_data()
                    })));
                } else {
                    snap = Some((g, log[g].len(), rd.read_style_data()));
                    rep.count("snapshots_before_the_end", 1);
                }
                hist.push(format!("read {g}"));
            }
            let g = r.below(3);
            let m = [&a, &b, &c][g];
            let mut k = rand_key(&mut r, &m.prefix, p.text.len());
            if r.chance(1, 3) {
                if let Some(o) = known[g].keys().min().cloned() {
                    k = o;
                }
            }
            if r.chance(1, 6) {
                if let Some(h) = known[g].get(&k) {
                    h.unregister();
                    hist.push(format!("{g} unregister {k:?}"));
                    rep.count("re_created", 1);
                }
            }
            let h = match create(&m.m, &k, &m.prefix, p, &mut r) {
                Ok(h) => h,
                Err(e) => {
                    bad = Some(e);
                    break;
                }
            };
            hist.push(format!("{g} create {k:?} -> {}", h.id()));
            if g < 2 && !known[g].contains_key(&k) {
                log[g].push((h.id().to_string(), h.css().to_string(), k.global));
            }
            known[g].insert(k, h);
        }
        let sig = format!("case:{i}");
        if let Some(e) = bad {
            rep.violation(&sig, format!("{e}\n{}", hist.join("\n")));
            continue;
        }
        let mut check = |rep: &mut Report, what: &str, exp: &[(String, String, bool)], data: &StyleData| {
            let mut html = String::new();
            data.write_static_markup(&mut html).unwrap();
            let els = match elements(&html) {
                Ok(e) => e,
                Err(e) => {
                    rep.violation(&sig, format!("{what}: {e}\n{html}"));
                    return;
                }
            };
            let got: Vec<&String> = els.iter().map(|m| &m.0).collect();
            let want: Vec<&String> = exp.iter().map(|m| &m.0).collect();
            if got != want || data_ids(data).iter().collect::<Vec<_>>() != want {
                rep.violation(&sig, format!("{what}: captured {got:?} (serialized: {:?}), created {want:?}\nhistory:\n{}", data_ids(data), hist.join("\n")));
                return;
            }
            for (e, x) in els.iter().zip(exp) {
                if css::unescape(&e.1) != css::unescape(&x.1) {
                    rep.violation(&sig, format!("{what}: style {} was captured with other CSS\ncaptured:\n{}\nstyle:\n{}", e.0, e.1, x.1));
                    return;
                }
            }
            rep.count("captured_styles", els.len() as u64);
            let mut shape = html.clone();
            for (n, e) in els.iter().enumerate() {
                shape = shape.replace(&e.0, &format!("ID{n}"));
            }
            rep.case(&shape, els.len() >= 2);
        };
        if let Some((g, n0, d)) = &snap {
            check(&mut rep, "snapshot taken earlier", &log[*g][..*n0], d);
        }
        if let Some((g, n0, h)) = handle {
            let d = h.join().unwrap();
            rep.count("cross_thread_reads", 1);
            let k = data_ids(&d).len();
            if k < n0 || k > log[g].len() {
                rep.violation(&sig, format!("read on another thread: {k} styles, {n0} had been created before, {} in the end", log[g].len()));
            } else {
                check(&mut rep, "read on another thread", &log[g][..k], &d);
            }
        }
        for (g, m) in [a, b].into_iter().enumerate() {
            let Mgr { m, reader, .. } = m;
            if let Some(rd) = reader {
                // the renderer is usually gone by the time the data is read
                if r.chance(1, 2) {
                    drop(m);
                    known[g].clear();
                }
                let d = rd.read_style_data();
                check(&mut rep, "final read", &log[g], &d);
            }
        }
        if i < 2 {
            rep.sample(hist.join("\n"));
        }
    }
    rep.finish()
}

const CLOSERS: &[&str] = &[
    "</style>", "</STYLE>", "</Style >", "</style\n>", "</style/>", "</style", "</sTyLe\t", "<\\/style>", "<!--", "-->", "<script>", "</script>",
    "]]>", "<style>", "&lt;/style&gt;", "&#60;/style>", "\"", "'", ">", "<", "</", "</ style>", "<//style>", "<</style>>", "</style></style>",
];

pub fn p14(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(6000, 200_000));
    let mut rep = Report::new(o, "styles whose strings, selectors, conditions and keyframe names hold HTML end tags and other markup in all spellings are captured and written as markup, which is read back by an HTML raw text reader; the elements, their ids and their CSS must be exactly the styles; non-trivial: the CSS holds an end tag; distinct by CSS");
    rep.require("end_tags", 500);
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P14", i as u64);
        let (w, rd) = render_static();
        let mgr = StyleManager::builder().prefix((*r.pick_of(&["stylist", "a_b", "x-1", "é"])).into()).writer(w).build().unwrap();
        let mut exp: Vec<(String, String)> = vec![];
        for _ in 0..if i % 100 == 99 { r.range(100, 400) } else { r.range(1, 4) } {
            let bits = |r: &mut Rng, q: char| -> String {
                let mut s = String::new();
                for _ in 0..r.range(1, 3) {
                    let c = *r.pick_of(CLOSERS);
                    if c.contains(q) || c.contains('\n') {
                        continue;
                    }
                    s.push_str(c);
                    if r.chance(1, 4) {
                        s.push_str(r.pick(&[" ", "x", "\u{e9}", "\\\\"]));
                    }
                }
                s
            };
            let q = if r.chance(1, 3) { '\'' } else { '"' };
            let s1 = bits(&mut r, q);
            let text = match r.below(7) {
                0 => format!("content: {q}{s1}{q};"),
                1 => format!("a[title={q}{s1}{q}] {{ color: red; }}"),
                2 => format!("@supports (content: {q}{s1}{q}) {{ color: red; }}"),
                3 => format!(".x {{ --v: {q}{s1}{q} {q}{}{q}; color: blue; }}", bits(&mut r, q)),
                4 => format!("@media print {{ .y {{ content: {q}{s1}{q}; }} }}"),
                // outside of strings
                5 => format!("--v: a {} b;", r.pick(&["</style>", "<!-- x -->", "< /style>", "</STYLE", "<b>"])),
                _ => format!("a /* {} */ b {{ color: red; }}", r.pick(&["</style>", "</sTYLE>", "<b>", "-->"])),
            };
            let global = r.chance(1, 3);
            let made = guard(|| -> Result<H, stylist::Error> {
                if global {
                    Ok(H::G(stylist::GlobalStyle::new_with_manager(text.as_str(), &mgr)?))
                } else {
                    Ok(H::S(Style::new_with_manager(text.as_str(), &mgr)?))
                }
            });
            match made {
                Ok(Ok(h)) => {
                    if h.css().to_ascii_lowercase().contains("</style") {
                        rep.count("end_tags", 1);
                    }
                    rep.case(&h.css().replace(h.id(), "ID"), h.css().to_ascii_lowercase().contains("</style"));
                    let e = (h.id().to_string(), h.css().to_string());
                    if !exp.contains(&e) {
                        exp.push(e);
                    }
                }
                Ok(Err(_)) => rep.count("not_accepted", 1),
                Err(_) => rep.count("not_accepted", 1),
            }
        }
        let data = rd.read_style_data();
        let mut html = String::new();
        data.write_static_markup(&mut html).unwrap();
        if i < 3 {
            rep.sample(html.clone());
        }
        let sig = format!("case:{i}");
        match elements(&html) {
            Err(e) => rep.violation(&sig, format!("{e}\nmarkup:\n{html}")),
            Ok(els) => {
                if els.len() != exp.len() {
                    rep.violation(&sig, format!("{} styles became {} elements\nmarkup:\n{html}", exp.len(), els.len()));
                    continue;
                }
                for (e, x) in els.iter().zip(&exp) {
                    let same = css::unescape(&e.1) == css::unescape(&x.1);
                    // and it is still the same CSS to a CSS reader
                    let read = |s: &str| css::read(&css::unescape(s)).map(|m| css::show(&m)).ok();
                    if e.0 != x.0 || !same || read(&e.1) != read(&x.1) {
                        rep.violation(&sig, format!("element {:?} does not carry the CSS of style {:?}\nelement:\n{}\nstyle:\n{}", e.0, x.0, e.1, x.1));
                    }
                    rep.count("elements", 1);
                }
            }
        }
    }
    if rep.get("not_accepted") > rep.evaluations {
        rep.inconclusive.push("too many styles were not accepted".into());
    }
    rep.finish()
}

/// A format that is not self-describing, like the one yew uses, next to JSON.
fn transport(d: &StyleData, r: &mut Rng) -> Result<(StyleData, &'static str), String> {
    fn via<T: Serialize + for<'a> Deserialize<'a>>(d: &T, which: usize) -> Result<T, String> {
        match which {
            0 => crate::util::from_json(&serde_json::to_string(d).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            1 => bincode::deserialize(&bincode::serialize(d).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            _ => serde_json::from_value(serde_json::to_value(d).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        }
    }
    let k = r.below(4);
    let name = ["json", "bincode", "json value", "none"][k];
    if k == 3 {
        return Ok((d.clone(), name));
    }
    guard(|| via(d, k)).unwrap_or_else(Err).map(|d| (d, name)).map_err(|e| format!("{name}: {e}"))
}

/// Data with some of the styles, if it is serialized as a list of styles.
fn some_of(data: &StyleData, r: &mut Rng) -> Option<StyleData> {
    let serde_json::Value::Array(mut all) = serde_json::to_value(data).ok()? else { return None };
    if r.chance(1, 2) {
        all.truncate(r.below(all.len() + 1));
    } else {
        all.retain(|_| r.chance(1, 2));
    }
    serde_json::from_value(all.into()).ok()
}

pub fn p15(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(1500, 50_000));
    let mut rep = Report::new(o, "a server manager captures a random history (scoped, global, own and foreign prefixes, unregistered and re-created), the data travels through JSON, bincode or memory into a fresh client manager, where all styles and new ones are created again in random order; ids and CSS are compared, loading twice or a part of it before must be harmless and loading over a style that already has another id must panic; non-trivial: at least two styles hydrated; distinct by the set of styles");
    rep.require("hydrated_styles", 2000);
    rep.require("new_after_hydration", 300);
    rep.require("conflicts", 50);
    rep.require("loaded_twice", 50);
    let mut rp = Rng::derive(seed, "P15p", 0);
    let p = pool(&mut rp, 60);
    let large = pool(&mut rp, 800);
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P15", i as u64);
        let long = i % 100 == 99;
        let p = if long { &large } else { &p };
        let sig = format!("case:{i}");
        let srv = new_mgr(&mut r, true);
        let mut styles: HashMap<Key, (String, String)> = HashMap::new();
        let mut order = vec![];
        for _ in 0..if long { r.range(200, 900) } else { r.range(1, 14) } {
            let k = rand_key(&mut r, &srv.prefix, p.text.len());
            let again = r.chance(1, 5);
            for _ in 0..1 + again as usize {
                match create(&srv.m, &k, &srv.prefix, p, &mut r) {
                    Ok(h) => {
                        if again {
                            h.unregister();
                        }
                        if let Some(o) = styles.insert(k.clone(), (h.id().into(), h.css().into())) {
                            if o.0 != h.id() {
                                // what the client would have to choose from
                                rep.count("server_ids_changed", 1);
                            }
                        } else {
                            order.push(k.clone());
                        }
                    }
                    Err(e) => rep.violation(&sig, e),
                }
            }
        }
        let data = srv.reader.unwrap().read_style_data();
        let (data, how) = match transport(&data, &mut r) {
            Ok(d) => d,
            Err(e) => {
                rep.violation(&sig, format!("style data cannot be transported: {e}\n{}", json(&data)));
                continue;
            }
        };
        rep.count(&format!("via_{}", how.replace(' ', "_")), 1);
        let mut names: Vec<String> = order.iter().map(|k| format!("{k:?}")).collect();
        names.sort();
        rep.case(&names.join("\n"), order.len() >= 2);
        if i < 2 {
            rep.sample(format!("{how}: {}", serde_json::to_string(&data).unwrap_or_default()));
        }
        let client = StyleManager::builder().prefix(srv.prefix.clone().into()).build().unwrap();
        let ctx = |w: String| format!("{w}\nvia {how}\nstyles:\n{}", order.iter().map(|k| format!("{k:?} -> {}\n{}", styles[k].0, p.text[k.sheet])).collect::<Vec<_>>().join("\n"));
        // a style that exists before hydration
        if r.chance(1, 4) {
            let k = r.pick_of(&order).clone();
            let early = create(&client, &k, &srv.prefix, p, &mut r).unwrap();
            rep.count("conflicts", 1);
            let res = guard(|| client.load_style_data(&data));
            if res.is_ok() && early.id() != styles[&k].0 {
                rep.violation(&sig, ctx(format!("loading over the existing style {} (server: {}) did not panic", early.id(), styles[&k].0)));
            }
            continue;
        }
        // what an earlier part of the page shipped, if it shipped less
        if r.chance(1, 4) {
            if let Some(part) = some_of(&data, &mut r) {
                rep.count("parts_loaded_before", 1);
                if let Err(e) = guard(|| client.load_style_data(&part)) {
                    rep.violation(&sig, ctx(format!("loading a part of the data panicked: {e}")));
                    continue;
                }
            }
        }
        if let Err(e) = guard(|| client.load_style_data(&data)) {
            rep.violation(&sig, ctx(format!("loading panicked: {e}")));
            continue;
        }
        if r.chance(1, 4) {
            rep.count("loaded_twice", 1);
            if let Err(e) = guard(|| client.load_style_data(&data)) {
                rep.violation(&sig, ctx(format!("loading the same data again panicked: {e}")));
                continue;
            }
        }
        let mut todo: Vec<Key> = order.clone();
        for _ in 0..r.below(5) {
            todo.push(rand_key(&mut r, &srv.prefix, p.text.len()));
        }
        // other prefixes and kinds of hydrated sheets are other styles
        for k in order.clone() {
            if r.chance(1, 4) {
                todo.push(Key { global: !k.global, prefix: srv.prefix.clone(), sheet: k.sheet });
            }
        }
        r.shuffle(&mut todo);
        for k in todo {
            let h = match create(&client, &k, &srv.prefix, p, &mut r) {
                Ok(h) => h,
                Err(e) => {
                    rep.violation(&sig, ctx(e));
                    continue;
                }
            };
            match styles.get(&k) {
                Some((id, css)) => {
                    rep.count("hydrated_styles", 1);
                    if h.id() != id {
                        rep.violation(&sig, ctx(format!("{k:?} was hydrated as {} instead of {id}", h.id())));
                    } else if h.css() != css {
                        rep.violation(&sig, ctx(format!("{k:?} {id} was hydrated with other CSS:\n{}\nserver:\n{css}", h.css())));
                    }
                }
                None => {
                    rep.count("new_after_hydration", 1);
                    if styles.values().any(|m| m.0 == h.id()) {
                        rep.violation(&sig, ctx(format!("a new style {k:?} got the id {} of a hydrated one", h.id())));
                    }
                }
            }
        }
        // a hydrated style can be unregistered like any other
        let k = r.pick_of(&order).clone();
        let h = create(&client, &k, &srv.prefix, p, &mut r).unwrap();
        let (id, sheet) = (h.id().to_string(), p.sheet[k.sheet].clone());
        h.unregister();
        let again = create(&client, &k, &srv.prefix, p, &mut r).unwrap();
        if again.id() == id {
            rep.violation(&sig, ctx(format!("hydrated style {id} could not be unregistered")));
        }
        let _: Sheet = sheet.clone();
        if again.css() != sheet.to_style_str((!k.global).then_some(again.id())) {
            rep.violation(&sig, ctx("a re-created style carries other CSS".into()));
        }
    }
    rep.finish()
}
