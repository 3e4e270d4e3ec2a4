//! P25: what rendering and styling take is given back.
use oracle::report::{Opts, Report};
use oracle::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist::{css, style, GlobalStyle, Style};
use trees::comps::{fresh, refresh};
use trees::world::*;

pub struct Counting;

static BYTES: AtomicIsize = AtomicIsize::new(0);
static BLOCKS: AtomicIsize = AtomicIsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as isize, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as isize, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as isize - l.size() as isize, Relaxed);
        System.realloc(p, l, n)
    }
}

/// (blocks, bytes)
fn live() -> (isize, isize) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}

type Counts = BTreeMap<&'static str, u64>;

/// A page: rendered, captured, sent; all of it dropped.
fn page(w: &World, hydratable: bool, counts: &mut Counts) -> Result<(), String> {
    let out = crate::runtime(crate::render(refresh(&w.trees[0]), &w.mgrs, hydratable));
    let mut markup = String::new();
    for d in out.data.iter().flatten() {
        d.write_static_markup(&mut markup).unwrap();
    }
    *counts.entry("pages_rendered").or_default() += 1;
    *counts.entry("bytes_rendered").or_default() += (markup.len() + out.html.len()) as u64;
    Ok(())
}

/// A history of one manager that outlives it, and of others that do not.
fn history(r: &mut Rng, texts: &[Text], keep: &StyleManager, counts: &mut Counts) -> Result<(), String> {
    let mut add = |k: &'static str| *counts.entry(k).or_default() += 1;
    let mut styles: Vec<(Style, bool)> = vec![];
    let mut globals: Vec<(GlobalStyle, bool)> = vec![];
    let mut others: Vec<StyleManager> = vec![];
    let mut data: Vec<StyleData> = vec![];
    for _ in 0..r.range(5, 40) {
        let kept = others.is_empty() || r.chance(1, 2);
        let m = if kept { keep.clone() } else { others[r.below(others.len())].clone() };
        let t = &*texts[r.below(texts.len())].text;
        match r.below(14) {
            0 | 1 => {
                let s = Style::new_with_manager(t, m).map_err(|e| format!("{e}"))?;
                styles.push((s, kept));
                add("styles_created");
            }
            2 => {
                globals.push((GlobalStyle::new_with_manager(t, m).map_err(|e| format!("{e}"))?, kept));
                add("global_styles_created");
            }
            3 => {
                // what is interpolated is new every time
                let v = format!("{}px", fresh());
                styles.push((Style::new_with_manager(css!("width: ${v}; &:hover, ${v} { height: ${v}; }", v = v), m).map_err(|e| format!("{e}"))?, kept));
                add("interpolated");
            }
            4 => {
                let v = fresh();
                styles.push((Style::new_with_manager(css!(width: ${v}px; @media (min-width: ${v}px) { color: ${t}; }), m).map_err(|e| format!("{e}"))?, kept));
                add("interpolated");
            }
            5 => {
                for bad in ["color red", "a { color: red;", "@media { }", "a { b: \"c }", &format!("{t}}}"), &"a { ".repeat(90)] {
                    if Style::new_with_manager(bad, m.clone()).is_ok() || GlobalStyle::new_with_manager(bad, m.clone()).is_ok() {
                        add("accepted");
                    }
                    add("refused");
                }
            }
            6 | 7 if !styles.is_empty() => {
                let k = r.below(styles.len());
                styles[k].0.unregister();
                if r.chance(1, 2) {
                    styles.swap_remove(k);
                }
                add("unregistered");
            }
            8 if !globals.is_empty() => {
                let k = r.below(globals.len());
                globals[k].0.unregister();
                add("unregistered");
            }
            9 => {
                let mut b = StyleManager::builder().prefix(format!("p{}", r.below(3)).into());
                if r.chance(1, 2) {
                    let (w, rd) = render_static();
                    b = b.writer(w);
                    if r.chance(1, 2) {
                        data.push(rd.read_style_data());
                    }
                }
                let m = b.build().unwrap();
                if r.chance(1, 3) {
                    // (a chain of managers and what they captured)
                    let (w, rd) = render_static();
                    let x = StyleManager::builder().writer(w).build().unwrap();
                    for _ in 0..3 {
                        let _ = Style::new_with_manager(&*texts[r.below(texts.len())].text, x.clone());
                        let _ = GlobalStyle::new_with_manager(&*texts[r.below(texts.len())].text, x.clone());
                    }
                    let d = rd.read_style_data();
                    let s = serde_json::to_string(&d).unwrap();
                    m.load_style_data(&from_json(&s).unwrap());
                    data.push(d);
                    add("data_loaded");
                }
                others.push(m);
                add("managers_created");
            }
            10 if !others.is_empty() => {
                let k = r.below(others.len());
                others.swap_remove(k);
                add("managers_dropped");
            }
            11 if !styles.is_empty() => {
                let s = styles[r.below(styles.len())].clone();
                styles.push(s);
            }
            12 => {
                let s = style!("color: blue;").map_err(|e| format!("{e}"))?;
                drop(s);
            }
            _ if !styles.is_empty() => {
                let _ = format!("{:?} {}", styles[0].0, styles[0].0.get_style_str());
            }
            _ => {}
        }
    }
    // the manager that stays is asked to forget, through any handle
    for (s, kept) in &styles {
        if *kept {
            s.unregister();
        }
    }
    for (s, kept) in &globals {
        if *kept {
            s.unregister();
        }
    }
    Ok(())
}

pub fn p25(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(1000, 30_000));
    let mut rep = Report::new(o, "pages of random component trees rendered on the server, and random histories over one manager that stays (its styles unregistered in the end) and others that go; each is repeated 7 times, the allocations left are compared after every repetition; non-trivial: it created a style; distinct by tree or history");
    rep.require("pages_rendered", 300);
    rep.require("unregistered", 300);
    rep.require("refused", 300);
    rep.require("managers_dropped", 100);
    rep.require("data_loaded", 100);
    const REPEAT: usize = 7;
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P25", i as u64);
        let tx = texts(&mut r, 5);
        let mut counts = Counts::new();
        let keys = ["styles_created", "global_styles_created", "interpolated", "refused", "accepted", "unregistered", "managers_created", "managers_dropped", "data_loaded", "pages_rendered", "bytes_rendered"];
        for k in keys {
            counts.insert(k, 0);
        }
        let shape;
        let mut marks = [(0, 0); REPEAT];
        let mut res = Ok(());
        if i % 2 == 0 {
            let kind = *r.pick_of(&["P21", "P23"]);
            let w = world(&mut r, &tx, kind);
            let hydratable = r.chance(1, 2);
            shape = Rc::new(w.shape.clone());
            for m in &mut marks {
                res = res.and(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| page(&w, hydratable, &mut counts))).unwrap_or(Err("rendering panicked".into())));
                *m = live();
            }
        } else {
            shape = Rc::new(format!("history {:016x}", r.clone().u64()));
            let start = r.clone();
            let staying = match i % 4 {
                1 => StyleManager::builder().prefix("stay".into()).build().unwrap(),
                _ => StyleManager::default(),
            };
            for m in &mut marks {
                res = res.and(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history(&mut start.clone(), &tx, &staying, &mut counts))).unwrap_or(Err("it panicked".into())));
                *m = live();
            }
        }
        rep.case(&shape, counts["pages_rendered"] > 0 || counts["styles_created"] + counts["global_styles_created"] > 0);
        rep.sample(format!("{shape}: blocks {:?}", marks.map(|m| m.0)));
        rep.count("repetitions_measured", REPEAT as u64);
        for (k, v) in counts {
            rep.count(k, v);
        }
        if let Err(e) = res {
            rep.violation(&format!("case:{i}"), format!("{e}\n{shape}"));
            continue;
        }
        // caches fill up at first; what is lost is lost every time
        let grows = |f: fn(&(isize, isize)) -> isize| marks[2..].windows(2).all(|w| f(&w[1]) > f(&w[0]));
        if grows(|m| m.0) || grows(|m| m.1) {
            rep.violation(&format!("leak:{i}"), format!("repeating it, the allocations left grow: (blocks, bytes) {marks:?}\n{shape}\ntexts: {:#?}", tx.iter().map(|t| &t.text).collect::<Vec<_>>()));
        }
    }
    rep.finish()
}

/// JSON of any depth (serde_json gives up at 128 levels by default).
fn from_json<T: serde::de::DeserializeOwned>(s: &str) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    T::deserialize(&mut d)
}
