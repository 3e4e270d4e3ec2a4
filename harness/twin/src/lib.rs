//! One workload, whatever the library is built for: what it does, as text in which ids are numbered.
#[path = "../../rt/src/conv.rs"]
#[allow(dead_code)]
mod conv;
mod macros;
#[cfg(feature = "page")]
mod page;

use oracle::model::*;
use oracle::rng::Rng;
use std::fmt::Write;
use stylist::ast::{Sheet, ToStyleStr};
use stylist::manager::StyleManager;
use stylist::{GlobalStyle, Style, StyleSource};

/// Numbers ids in the order they are seen; an id that is not PREFIX-[global-]LETTERS stays as it is.
#[derive(Default)]
pub struct Ids(Vec<String>);

impl Ids {
    pub fn no(&mut self, id: &str) -> usize {
        if let Some(i) = self.0.iter().position(|m| m == id) {
            return i;
        }
        self.0.push(id.into());
        self.0.len() - 1
    }
    /// An id can be the start of another one.
    pub fn longest_first(&self) -> Vec<(usize, &String)> {
        let mut v: Vec<(usize, &String)> = self.0.iter().enumerate().collect();
        v.sort_by_key(|m| std::cmp::Reverse(m.1.len()));
        v
    }
    fn show(&mut self, id: &str, prefix: &str, global: bool) -> String {
        let n = self.no(id);
        let rest = id.strip_prefix(prefix).and_then(|m| m.strip_prefix(if global { "-global-" } else { "-" }));
        match rest {
            Some(m) if !m.is_empty() && m.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') => format!("{prefix}#{n}{}", if global { "g" } else { "" }),
            _ => id.into(),
        }
    }
}

fn outcome(r: Result<Sheet, stylist::Error>) -> String {
    match r {
        Ok(s) => format!("{}\n--\n{}", s.to_style_str(Some("C")), s.to_style_str(None)),
        Err(e) => format!("error: {e}"),
    }
}

fn mutated(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(v.len() + 1);
        match r.below(4) {
            0 => v.truncate(i),
            1 if i < v.len() => drop(v.remove(i)),
            2 => v.insert(i, *r.pick_of(&['{', '}', '"', '\'', ';', ':', '(', ')', '/', '*', '&', '@', '\\', ',', '\u{0}', 'é', ' '])),
            _ => {
                let j = r.below(v.len() + 1);
                let (a, b) = (i.min(j), i.max(j));
                v.drain(a..b.min(a + 12));
            }
        }
    }
    v.into_iter().collect()
}

#[derive(Clone)]
pub enum H {
    S(Style),
    G(GlobalStyle),
}

impl H {
    fn show(&self, ids: &mut Ids, prefix: &str) -> String {
        let (id, css, g) = match self {
            H::S(s) => (s.get_class_name(), s.get_style_str(), false),
            H::G(s) => (s.id().as_ref(), s.get_style_str(), true),
        };
        let shown = ids.show(id, prefix, g);
        format!("{shown} {}", css.replace(id, "C"))
    }
    fn unregister(&self) {
        match self {
            H::S(s) => s.unregister(),
            H::G(s) => s.unregister(),
        }
    }
}

fn create(text: &str, global: bool, how: usize, prefix: Option<&'static str>, m: &StyleManager) -> stylist::Result<H> {
    let sheet = || text.parse::<Sheet>();
    if global {
        return Ok(H::G(match how {
            0 => GlobalStyle::new_with_manager(text, m)?,
            1 => GlobalStyle::new_with_manager(sheet()?, m)?,
            _ => GlobalStyle::new_with_manager(StyleSource::try_from(text.to_string())?, m.clone())?,
        }));
    }
    Ok(H::S(match (prefix, how) {
        (Some(p), 0) => Style::create_with_manager(p, text, m)?,
        (Some(p), _) => Style::create_with_manager(p, sheet()?, m)?,
        (None, 0) => Style::new_with_manager(text, m)?,
        (None, 1) => Style::new_with_manager(sheet()?, m)?,
        (None, _) => Style::new_with_manager(StyleSource::try_from(text)?, m.clone())?,
    }))
}

const PREFIXES: &[&str] = &["stylist", "a", "my-app", "x_1"];

/// Creations in managers, on the managers made by `build`.
fn history(r: &mut Rng, pool: &[String], mgrs: &[(StyleManager, &'static str)], ids: &mut Ids) -> String {
    let mut o = String::new();
    let mut kept: Vec<(H, &'static str)> = vec![];
    for _ in 0..r.range(5, 25) {
        let (m, p) = r.pick_of(mgrs);
        match r.below(8) {
            0 if !kept.is_empty() => {
                let i = r.below(kept.len());
                kept[i].0.unregister();
                writeln!(o, "unregister {i}").unwrap();
            }
            1 if !kept.is_empty() => {
                let i = r.below(kept.len());
                drop(kept.remove(i));
            }
            _ => {
                let (text, global, how) = (r.pick_of(pool), r.chance(1, 3), r.below(3));
                let prefix = r.chance(1, 3).then(|| *r.pick_of(PREFIXES));
                match create(text, global, how, prefix, m) {
                    Ok(h) => {
                        let p = if global { p } else { prefix.unwrap_or(p) };
                        writeln!(o, "{}", h.show(ids, p)).unwrap();
                        kept.push((h, p));
                    }
                    Err(e) => writeln!(o, "error: {e}").unwrap(),
                }
            }
        }
    }
    for (h, p) in &kept {
        writeln!(o, "kept {}", h.show(ids, p)).unwrap();
    }
    o
}

/// What a section says, or the panic it ends with.
fn section(out: &mut Vec<(&'static str, String)>, name: &'static str, f: impl FnOnce() -> String) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    out.push((
        name,
        r.unwrap_or_else(|e| format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|m| m.to_string())).unwrap_or_default())),
    ));
}

pub fn case(seed: u64, i: u64) -> Vec<(&'static str, String)> {
    let mut out = vec![];
    let rng = |label: &str| Rng::derive(seed, label, i);
    let mut prof = Profile::full();
    prof.max_items = 4;
    let r = &mut rng("TWIN");
    let mut pool = vec![];
    let mut tried = vec![];
    for k in 0..4 {
        let m = gen_model(r, &prof);
        let trivia = r.below(3);
        let t = print(&m, r, trivia);
        let bad = mutated(&t, r);
        pool.push(if k < 3 { t.clone() } else { bad.clone() });
        tried.extend([t, bad]);
    }
    section(&mut out, "text", || tried.iter().map(|t| format!("== {}\n", outcome(t.parse()))).collect());
    section(&mut out, "pieces", || {
        let m = gen_model(r, &prof);
        outcome(Ok(conv::sheet(&m, Some(r))))
    });
    let build = |p: &'static str, app: bool| (StyleManager::builder().prefix(p.into()).append(app).build().unwrap(), p);
    section(&mut out, "history", || {
        let r = &mut rng("TWIN history");
        let mgrs = [build("p0", true), build(*r.pick_of(PREFIXES), false)];
        history(r, &pool, &mgrs, &mut Ids::default())
    });
    section(&mut out, "macros", || macros::run(&mut rng("TWIN macros")));
    #[cfg(feature = "yew")]
    section(&mut out, "classes", || macros::classes(&mut rng("TWIN classes")));
    #[cfg(feature = "ssr")]
    {
        let r = &mut rng("TWIN ssr");
        let (w, rd) = stylist::manager::render_static();
        let mgrs = [(StyleManager::builder().prefix("w".into()).writer(w).build().unwrap(), "w"), build("p", true)];
        let mut ids = Ids::default();
        #[cfg_attr(not(feature = "hydration"), allow(unused))]
        let mut shipped = String::new();
        section(&mut out, "capture", || {
            let mut o = history(r, &pool, &mgrs, &mut ids);
            let data = rd.read_style_data();
            let (mut markup, mut json) = (String::new(), serde_json::to_string(&data).unwrap());
            shipped = json.clone();
            data.write_static_markup(&mut markup).unwrap();
            for (k, id) in ids.longest_first() {
                markup = markup.replace(id, &format!("#{k}#"));
                json = json.replace(id, &format!("#{k}#"));
            }
            write!(o, "{markup}\n{json}").unwrap();
            o
        });
        #[cfg(feature = "hydration")]
        section(&mut out, "again", || {
            let fresh = build("w", true);
            fresh.0.load_style_data(&from_json(&shipped).unwrap());
            history(r, &pool, &[fresh], &mut ids)
        });
    }
    #[cfg(feature = "page")]
    section(&mut out, "page", || page::run(&mut rng("TWIN page")));
    out
}

/// JSON of any depth (serde_json gives up at 128 levels by default).
#[cfg(all(feature = "ssr", feature = "hydration"))]
fn from_json<T: serde::de::DeserializeOwned>(s: &str) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    T::deserialize(&mut d)
}
