//! P05 scoping, P06 global emission, P07 structure of emitted CSS, P08 emitted CSS is readable again.
use crate::conv;
use crate::util::guard;
use oracle::css::{self, Ev};
use oracle::model::*;
use oracle::report::{Opts, Report};
use oracle::rng::Rng;
use stylist::ast::{Sheet, ToStyleStr};
use stylist::manager::StyleManager;
use stylist::{GlobalStyle, Style};

/// What a created style looks like from the outside.
struct Made {
    id: String,
    css: String,
}

/// The different public ways from a sheet to CSS.
const ROUTES: &[&str] = &["source-text", "parsed-sheet", "fragmented-sheet", "custom-manager", "direct"];

fn make(
    route: &str,
    m: &Model,
    src: &str,
    global: bool,
    mgr: &StyleManager,
    r: &mut Rng,
) -> Result<Made, String> {
    let sheet = || src.parse::<Sheet>().map_err(|e| format!("valid sheet rejected: {e}"));
    let prefix = ["stylist", "my-comp", "A_b", "x"][r.below(4)];
    let res = guard(|| -> Result<Made, String> {
        let e = |e: stylist::Error| format!("{e}");
        if route == "direct" {
            let s = conv::sheet(m, Some(r));
            let id = format!("{prefix}-Q{}", r.below(1000));
            let css = s.to_style_str(if global { None } else { Some(&id) });
            return Ok(Made { id, css });
        }
        if global {
            let g = match route {
                "source-text" => GlobalStyle::new(src).map_err(e)?,
                "parsed-sheet" => GlobalStyle::new(sheet()?).map_err(e)?,
                "fragmented-sheet" => {
                    GlobalStyle::new_with_manager(conv::sheet(m, Some(r)), mgr).map_err(e)?
                }
                _ => GlobalStyle::new_with_manager(src.to_string(), mgr.clone()).map_err(e)?,
            };
            return Ok(Made { id: g.id().to_string(), css: g.get_style_str().to_string() });
        }
        let g = match route {
            "source-text" => Style::new(src).map_err(e)?,
            "parsed-sheet" => Style::create(prefix, sheet()?).map_err(e)?,
            "fragmented-sheet" => Style::new_with_manager(conv::sheet(m, Some(r)), mgr).map_err(e)?,
            _ => Style::create_with_manager(prefix, src.to_string(), mgr.clone()).map_err(e)?,
        };
        if g.get_class_name() != &**g.id() {
            return Err("class name and id differ".into());
        }
        Ok(Made { id: g.get_class_name().to_string(), css: g.get_style_str().to_string() })
    });
    res.unwrap_or_else(|p| Err(format!("panicked: {p}")))
}

/// Gives every declaration a unique value, so that each emitted one can be attributed.
fn uniquify(m: &mut [Item], k: &mut usize) {
    fn d(v: &mut Decl, k: &mut usize) {
        *k += 1;
        v.val = format!("{} u{}", v.val.trim_end_matches("!important").trim_end_matches("! important").trim_end(), k);
    }
    fn b(v: &mut [Body], k: &mut usize) {
        for m in v {
            match m {
                Body::Decl(x) => d(x, k),
                Body::At(_, v) => b(v, k),
            }
        }
    }
    for i in m {
        match i {
            Item::Dangling(v) => v.iter_mut().for_each(|m| d(m, k)),
            Item::Block(_, v) => b(v, k),
            Item::At(_, v) => uniquify(v, k),
            Item::Keyframes(_, f) => f.iter_mut().for_each(|f| f.1.iter_mut().for_each(|m| d(m, k))),
        }
    }
}

fn sel_diff(exp: &[Ev], got: &[Ev]) -> Option<String> {
    let pick = |v: &[Ev]| -> Vec<(String, Vec<String>)> {
        v.iter()
            .filter_map(|e| match e {
                Ev::Decl { key, val, sels, .. } => Some((format!("{key}: {val}"), sels.clone())),
                _ => None,
            })
            .collect()
    };
    let (e, g) = (pick(exp), pick(got));
    // attribute by declaration (declarations are unique): order and presence are P07's business
    for (d, s) in &g {
        match e.iter().find(|m| m.0 == *d) {
            None => {}
            Some((_, es)) if es != s => {
                return Some(format!("declaration {d:?}\n  expected on: {}\n  emitted on:  {}", es.join(" , "), s.join(" , ")))
            }
            _ => {}
        }
    }
    None
}

fn struct_diff(exp: &[Ev], got: &[Ev]) -> Option<String> {
    // selectors are P05's / P06's business: keep only whether there is a block
    let strip = |v: &[Ev]| -> Vec<String> {
        v.iter()
            .map(|e| match e {
                Ev::Decl { at, key, val, sels } => {
                    format!("[{}] {} selector(s) {key}: {val}", at.join(" | "), sels.len())
                }
                e => e.show(),
            })
            .collect()
    };
    let (e, g) = (strip(exp), strip(got));
    if e == g {
        return None;
    }
    let i = e.iter().zip(&g).take_while(|(a, b)| a == b).count();
    let end = "<end>".to_string();
    Some(format!(
        "event {i}:\n  expected: {}\n  emitted:  {}",
        e.get(i).unwrap_or(&end),
        g.get(i).unwrap_or(&end)
    ))
}

/// (name, source, expected scoped selectors for class C, expected global selectors)
const SEL_PROBES: &[(&str, &str, &[&str], &[&str])] = &[
    ("amp", "& { x: y; }", &[".C"], &[":root"]),
    ("amp-suffix", "&.big, &:hover { x: y; }", &[".C.big", ".C:hover"], &[":root.big", ":root:hover"]),
    ("root", ":root.big { x: y; }", &[".C.big"], &[":root.big"]),
    ("doc-list", "&.invalid input, input:invalid { x: y; }", &[".C.invalid input", ".C input:invalid"], &[":root.invalid input", "input:invalid"]),
    ("pseudo", ":hover { x: y; }", &[".C:hover"], &[":hover"]),
    ("pseudo-element", "::before { x: y; }", &[".C::before"], &["::before"]),
    ("is-list", ":is(.a, .b) c { x: y; }", &[".C:is(.a,.b) c"], &[":is(.a,.b) c"]),
    ("amp-in-string", "a[href=\"?x&y\"] { x: y; }", &[".C a[href=\"?x&y\"]"], &["a[href=\"?x&y\"]"]),
    ("root-in-string", "a[t=\":root\"] { x: y; }", &[".C a[t=\":root\"]"], &["a[t=\":root\"]"]),
    ("amp-and-string", "&[t='&'] b { x: y; }", &[".C[t='&'] b"], &[":root[t='&'] b"]),
    ("two-amps", "& + & > .a { x: y; }", &[".C + .C > .a"], &[":root + :root > .a"]),
    ("amp-inside-not", ".a:not(&) { x: y; }", &[".a:not(.C)"], &[".a:not(:root)"]),
    ("mixed-root-amp", ":root & { x: y; }", &[".C .C"], &[":root :root"]),
    ("combinator-start", "> .a { x: y; }", &[".C > .a"], &["> .a"]),
    ("escaped-amp", ".a\\&b { x: y; }", &[".C .a\\&b"], &[".a\\&b"]),
    ("amp-in-comment", "a /* & */ b { x: y; }", &[".C a b"], &["a b"]),
    ("pseudo-in-list", ".a, :hover, & .b, ::after { x: y; }", &[".C .a", ".C:hover", ".C .b", ".C::after"], &[".a", ":hover", ":root .b", "::after"]),
    ("pseudo-later", "a :hover { x: y; }", &[".C a :hover"], &["a :hover"]),
];

pub fn run(o: Opts) -> i32 {
    let prop = o.prop.clone();
    let seed = o.seed;
    let n = o.n(10_000, 300_000);
    let rule = match prop.as_str() {
        "P05" => "random sheets with unique declarations become scoped styles through five public routes (text, parsed sheet, sheet built from split fragments, custom manager, direct writer); emitted CSS is read by an independent reader and every declaration's selectors are compared with the documented scoping rules and must all name the generated class; non-trivial: at least one selector besides the bare class; distinct by emitted CSS without class name",
        "P06" => "the same sheets become global styles; every declaration's selectors must be the author's (with `&` as :root), the generated id must not occur; non-trivial: at least one block selector; distinct by emitted CSS",
        "P07" => "the same sheets, scoped and global: the sequence of (at-rule stack, declaration) in the emitted CSS must be exactly that of the source, without empty blocks and balanced; non-trivial: an at-rule is involved; distinct by emitted CSS without class name",
        _ => "the same sheets, scoped and global: emitted CSS is parsed again by stylist, must be accepted, mean the same, and be emitted again unchanged; non-trivial: at least two declarations; distinct by emitted CSS without class name",
    };
    let mut rep = Report::new(o, rule);
    rep.require("declarations", 2000);
    let mgr = StyleManager::builder().prefix("mgr-x".into()).build().unwrap();
    if matches!(prop.as_str(), "P05" | "P06") {
        for (name, src, sc, gl) in SEL_PROBES {
            let exp: &[&str] = if prop == "P05" { sc } else { gl };
            rep.count("probes", 1);
            let res = guard(|| {
                let s = src.parse::<Sheet>().map_err(|e| e.to_string())?;
                css::read(&s.to_style_str(if prop == "P05" { Some("C") } else { None }))
            })
            .unwrap_or_else(Err);
            let ok = match &res {
                Ok(v) => matches!(&v[..], [Ev::Decl { sels, .. }] if sels.iter().map(|m| m.as_str()).eq(exp.iter().copied())),
                Err(_) => false,
            };
            if !ok {
                let got = res.map(|m| css::show(&m)).unwrap_or_else(|e| e);
                rep.violation(&format!("probe:{name}"), format!("source: {src}\nexpected selectors: {exp:?}\ngot: {got}"));
            }
        }
    }
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "EMIT", i as u64);
        let mut prof = Profile::full();
        if i % 5 == 4 {
            prof.max_depth = 8;
            prof.max_items = 3;
        }
        let mut m = gen_model(&mut r, &prof);
        let mut k = 0;
        uniquify(&mut m, &mut k);
        let t = r.below(3);
        let src = print(&m, &mut r, t);
        let route = ROUTES[i % ROUTES.len()];
        let global = match prop.as_str() {
            "P05" => false,
            "P06" => true,
            _ => (i / ROUTES.len()) % 2 == 1,
        };
        let sig = format!("case:{i}:{route}");
        let made = match make(route, &m, &src, global, &mgr, &mut r) {
            Ok(m) => m,
            Err(e) => {
                // Not creating it at all is P08's business, what would have been emitted is judged all the same.
                if prop == "P08" {
                    rep.violation(&sig, format!("{e}\nsource:\n{src}"));
                }
                rep.count("not_created", 1);
                let id = "stylist-refused".to_string();
                let css = guard(|| src.parse::<Sheet>().map(|s| s.to_style_str((!global).then_some(&id))));
                match css {
                    Ok(Ok(css)) if prop != "P08" => Made { id, css },
                    _ => {
                        rep.count("not_emitted", 1);
                        continue;
                    }
                }
            }
        };
        rep.count(&format!("route_{route}"), 1);
        rep.count("declarations", k as u64);
        let got = match css::read(&made.css) {
            Ok(g) => g,
            Err(e) => {
                if prop != "P08" {
                    rep.violation(&sig, format!("emitted CSS is not well formed: {e}\nsource:\n{src}\nemitted:\n{}", made.css));
                }
                rep.count("unreadable", 1);
                continue;
            }
        };
        let exp = expect_css(&m, if global { None } else { Some(&made.id) });
        let nsel = exp.iter().filter(|e| matches!(e, Ev::Decl { sels, at, .. } if !(at.last().is_some_and(|a| a.starts_with("@keyframes"))) && (sels.len() > 1 || !(sels[0] == ":root" || sels[0] == format!(".{}", made.id))))).count();
        let nat = exp.iter().filter(|e| matches!(e, Ev::Decl { at, .. } if !at.is_empty())).count();
        let nontrivial = match prop.as_str() {
            "P05" | "P06" => nsel > 0,
            "P07" => nat > 0,
            _ => k >= 2,
        };
        rep.case(&made.css.replace(&made.id, "ID"), nontrivial);
        if i < 3 {
            rep.sample(format!("source:\n{src}\nemitted:\n{}", made.css));
        }
        let ctx = |what: String| format!("{what}\nroute: {route}\nsource:\n{src}\nemitted:\n{}", made.css);
        match prop.as_str() {
            "P05" => {
                for e in &got {
                    if let Ev::Decl { at, sels, key, .. } = e {
                        if at.last().is_some_and(|a| a.starts_with("@keyframes")) {
                            rep.count("keyframe_declarations", 1);
                            continue;
                        }
                        rep.count("selectors", sels.len() as u64);
                        for s in sels {
                            // `.a:not(&)` keeps the class inside brackets
                            if !css::classes_of(s).contains(&made.id) && !s.contains(&format!(".{}", made.id)) {
                                rep.violation(&sig, ctx(format!("selector {s:?} of {key:?} escapes the scope .{}", made.id)));
                            }
                        }
                    }
                }
                if let Some(d) = sel_diff(&exp, &got) {
                    rep.violation(&sig, ctx(d));
                }
            }
            "P06" => {
                if made.css.contains(&made.id) {
                    rep.violation(&sig, ctx(format!("the id {} occurs in global CSS", made.id)));
                }
                if let Some(d) = sel_diff(&exp, &got) {
                    rep.violation(&sig, ctx(d));
                }
            }
            "P07" => {
                rep.count("events", exp.len() as u64);
                rep.max("max_at_depth", exp.iter().map(|e| if let Ev::Decl { at, .. } = e { at.len() } else { 0 }).max().unwrap_or(0) as u64);
                if let Some(d) = struct_diff(&exp, &got) {
                    rep.violation(&sig, ctx(d));
                }
            }
            _ => {
                rep.count("reparsed", 1);
                match guard(|| made.css.parse::<Sheet>()) {
                    Err(p) => rep.violation(&sig, ctx(format!("parser panicked on emitted CSS: {p}"))),
                    Ok(Err(e)) => rep.violation(&sig, ctx(format!("emitted CSS is rejected: {e}"))),
                    Ok(Ok(s)) => {
                        let again = s.to_style_str(None);
                        match css::read(&again) {
                            Ok(g2) if css::show(&g2) == css::show(&got) => {}
                            Ok(g2) => rep.violation(&sig, ctx(format!("meaning changed by a round trip: {}", struct_diff(&got, &g2).or_else(|| sel_diff(&got, &g2)).unwrap_or_default()))),
                            Err(e) => rep.violation(&sig, ctx(format!("round trip is not well formed: {e}"))),
                        }
                        if again.parse::<Sheet>().map(|m| m.to_style_str(None)).ok().as_ref() != Some(&again) {
                            rep.violation(&sig, ctx("emission is not stable under parsing".into()));
                        }
                    }
                }
            }
        }
        // keep the registries small
        if i % 500 == 499 {
            rep.count("chunks", 1);
        }
    }
    if prop != "P08" && rep.get("not_emitted") + rep.get("unreadable") > (n / 20) as u64 && !rep.is_violated() {
        rep.inconclusive.push("too many styles could not be created or read".into());
    }
    rep.finish()
}
