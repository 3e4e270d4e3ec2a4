//! P09 identity, P10 ids, P11 lifecycle, P12 failures without a trace.
use crate::conv;
use crate::util::guard;
use oracle::css;
use oracle::model::*;
use oracle::report::{Opts, Report};
use oracle::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use stylist::ast::{Sheet, ToStyleStr};
use stylist::manager::{render_static, StaticReader, StyleManager};
use stylist::{GlobalStyle, Style, StyleSource};

// ------------------------------------------------------------ allocation monitor

pub struct Counting;
thread_local!(static LIVE: Cell<(isize, isize)> = const { Cell::new((0, 0)) });
fn note(bytes: isize, blocks: isize) {
    let _ = LIVE.try_with(|m| {
        let (a, b) = m.get();
        m.set((a + bytes, b + blocks));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize, 0);
        System.realloc(p, l, n)
    }
}
/// (bytes, blocks) currently allocated by this thread.
pub fn live() -> (isize, isize) {
    LIVE.with(|m| m.get())
}

// ------------------------------------------------------------ a style of either kind

#[derive(Clone, Debug)]
pub enum H {
    S(Style),
    G(GlobalStyle),
}
impl H {
    pub fn id(&self) -> &str {
        match self {
            H::S(s) => s.id(),
            H::G(s) => s.id(),
        }
    }
    pub fn css(&self) -> &str {
        match self {
            H::S(s) => s.get_style_str(),
            H::G(s) => s.get_style_str(),
        }
    }
    pub fn unregister(&self) {
        match self {
            H::S(s) => s.unregister(),
            H::G(s) => s.unregister(),
        }
    }
}

/// What identifies a style within a manager, as documented.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Key {
    pub global: bool,
    pub prefix: String,
    pub sheet: usize,
}

/// Sheets that are all different, many of them only just; each has a text and a parsed sheet.
pub struct Pool {
    pub text: Vec<String>,
    pub sheet: Vec<Sheet>,
}

pub fn pool(r: &mut Rng, n: usize) -> Pool {
    let mut seen: HashSet<Vec<Node>> = HashSet::new();
    let mut p = Pool { text: vec![], sheet: vec![] };
    let prof = Profile { max_items: 3, big: 60, ..Profile::full() };
    let mut push = |m: &Model, r: &mut Rng, p: &mut Pool| {
        let e = expect_tree(m);
        if seen.contains(&e) || p.text.len() >= n {
            return;
        }
        let t = print(m, r, 0);
        if let Ok(s) = t.parse::<Sheet>() {
            // a style that cannot be created is P08's business
            let ok = s.to_style_str(Some("C")).parse::<Sheet>().is_ok() && s.to_style_str(None).parse::<Sheet>().is_ok();
            if ok {
                seen.insert(e);
                p.text.push(t);
                p.sheet.push(s);
            }
        }
    };
    let d = |k: &str, v: &str| Decl { key: k.into(), val: v.into() };
    while p.text.len() < n {
        let m = gen_model(r, &prof);
        push(&m, r, &mut p);
        // families of near-equal sheets
        let a = format!(".f{}", r.below(1000));
        let k = r.below(1000);
        let at = |c: &str| At { tag: "@media", cond: c.into() };
        let fam: Vec<Model> = vec![
            vec![Item::Dangling(vec![d("color", "red")])],
            vec![Item::Dangling(vec![d("color", "Red")])],
            vec![Item::Dangling(vec![d("color", "red"), d("width", "1px")])],
            vec![Item::Dangling(vec![d("width", "1px"), d("color", "red")])],
            vec![Item::Block(vec![Sel::lit(&a)], vec![Body::Decl(d("color", "red"))])],
            vec![Item::Block(vec![Sel::lit(&a)], vec![Body::Decl(d("color", "red")), Body::Decl(d("color", "red"))])],
            vec![Item::Block(vec![Sel::lit(&a), Sel::lit(".b")], vec![Body::Decl(d("color", "red"))])],
            vec![Item::Block(vec![Sel::lit(".b"), Sel::lit(&a)], vec![Body::Decl(d("color", "red"))])],
            vec![Item::Block(vec![Sel(vec![Piece::Amp])], vec![Body::Decl(d("color", "red"))])],
            vec![Item::At(at("print"), vec![Item::Dangling(vec![d("color", "red")])])],
            vec![Item::At(at("screen"), vec![Item::Dangling(vec![d("color", "red")])])],
            vec![Item::At(At { tag: "@supports", cond: "(a: b)".into() }, vec![Item::Dangling(vec![d("color", "red")])])],
            vec![Item::At(at("(a: b)"), vec![Item::Dangling(vec![d("color", "red")])])],
            vec![Item::Block(vec![Sel::lit(&a)], vec![Body::At(at("print"), vec![Body::Decl(d("color", "red"))])])],
            vec![Item::At(at("print"), vec![Item::Block(vec![Sel::lit(&a)], vec![Body::Decl(d("color", "red"))])])],
            vec![Item::Keyframes(format!("k{k}"), vec![(vec!["from".into()], vec![d("color", "red")])])],
            vec![Item::Keyframes(format!("k{k}"), vec![(vec!["to".into()], vec![d("color", "red")])])],
            vec![Item::Dangling(vec![d("content", &format!("\"{k}\""))])],
            vec![Item::Dangling(vec![d("content", &format!("\"{k} \""))])],
            vec![Item::Dangling(vec![d("content", &format!("'{k}'"))])],
            vec![Item::Dangling(vec![d(&format!("--v{k}"), "1")])],
            vec![Item::Dangling(vec![d(&format!("--V{k}"), "1")])],
            vec![],
        ];
        let f = r.below(fam.len());
        push(&fam[f], r, &mut p);
        let f = r.below(fam.len());
        push(&fam[f], r, &mut p);
    }
    p
}

pub const PREFIXES: &[&str] = &["stylist", "Stylist", "card", "Card", "card-a", "card_a", "x", "--p", "my-component-with-a-long-name", "é", "card-global", "card-", "x--", "_", "a-b-_-"];

pub struct Mgr {
    pub m: StyleManager,
    pub prefix: String,
    pub reader: Option<StaticReader>,
    pub ssr: bool,
}

pub fn new_mgr(r: &mut Rng, ssr: bool) -> Mgr {
    let prefix = r.pick(PREFIXES).to_string();
    let mut b = StyleManager::builder().prefix(prefix.clone().into());
    if r.chance(1, 3) {
        b = b.append(r.chance(1, 2));
    }
    let mut reader = None;
    if ssr {
        let (w, rd) = render_static();
        b = b.writer(w);
        reader = Some(rd);
    }
    Mgr { m: b.build().unwrap(), prefix, reader, ssr }
}

/// Creates the style through one of the public ways. `None` for the prefix: the manager's.
pub fn create(m: &StyleManager, k: &Key, mgr_prefix: &str, p: &Pool, r: &mut Rng) -> Result<H, String> {
    let e = |e: stylist::Error| format!("creation failed: {e}");
    let text = &p.text[k.sheet];
    let sheet = || p.sheet[k.sheet].clone();
    let own = k.prefix == mgr_prefix;
    guard(|| {
        if k.global {
            return Ok(H::G(match r.below(4) {
                0 => GlobalStyle::new_with_manager(text.as_str(), m).map_err(e)?,
                1 => GlobalStyle::new_with_manager(text.clone(), m.clone()).map_err(e)?,
                2 => GlobalStyle::new_with_manager(StyleSource::from(sheet()), m).map_err(e)?,
                _ => GlobalStyle::new_with_manager(sheet(), m).map_err(e)?,
            }));
        }
        Ok(H::S(match (own, r.below(4)) {
            (true, 0) => Style::new_with_manager(text.as_str(), m).map_err(e)?,
            (true, 1) => Style::new_with_manager(sheet(), m.clone()).map_err(e)?,
            (_, 2) => Style::create_with_manager(k.prefix.clone(), StyleSource::from(sheet()), m).map_err(e)?,
            (_, 3) => Style::create_with_manager(k.prefix.clone(), text.clone(), m.clone()).map_err(e)?,
            _ => Style::create_with_manager(k.prefix.clone(), sheet(), m).map_err(e)?,
        }))
    })
    .unwrap_or_else(|p| Err(format!("creation panicked: {p}")))
}

pub fn rand_key(r: &mut Rng, mgr_prefix: &str, n: usize) -> Key {
    let global = r.chance(1, 3);
    let prefix = if global || r.chance(1, 2) { mgr_prefix.to_string() } else { r.pick(PREFIXES).to_string() };
    Key { global, prefix, sheet: r.below(n) }
}

/// The id is `<prefix>-…`, for global styles `<prefix>-global-…`, and usable as a class name.
pub fn id_shape(id: &str, k: &Key) -> Result<(), String> {
    let want = if k.global { format!("{}-global-", k.prefix) } else { format!("{}-", k.prefix) };
    let Some(rest) = id.strip_prefix(&want) else { return Err(format!("id {id:?} does not start with {want:?}")) };
    if rest.is_empty() || !rest.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') {
        return Err(format!("id {id:?} is not a class name"));
    }
    Ok(())
}

pub fn p09(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(75, 3000));
    let mut rep = Report::new(o, "random histories of creating styles (scoped and global, fifteen prefixes, sheets that differ only just, four routes each, several managers, interleaved with drops and unregistrations); every answer is compared with the table (manager, kind, prefix, sheet) -> id; non-trivial: a request for a key that was requested before, or one whose sheet is registered under another kind or prefix; distinct by (history, step)");
    rep.require("same_again", 2000);
    rep.require("new_styles", 2000);
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P09", i as u64);
        // now and then a long history over many styles
        let long = i % 25 == 24;
        let p = pool(&mut r, if long { 1500 } else { 40 });
        let mgrs: Vec<Mgr> = (0..3).map(|_| { let s = r.chance(1, 3); new_mgr(&mut r, s) }).collect();
        let mut table: Vec<HashMap<Key, H>> = vec![HashMap::new(); 3];
        let mut ids: HashMap<String, (usize, Key)> = HashMap::new();
        let mut sheets: Vec<HashSet<usize>> = vec![HashSet::new(); 3];
        let mut log = vec![];
        for step in 0..if long { 6000 } else { 300 } {
            let g = if long && r.chance(4, 5) { 0 } else { r.below(3) };
            let k = rand_key(&mut r, &mgrs[g].prefix, p.text.len());
            if long {
                rep.max("styles_of_one_manager", table[g].len() as u64);
            }
            if r.chance(1, 40) {
                if let Some(h) = table[g].remove(&k) {
                    h.unregister();
                    if mgrs[g].ssr {
                        // a captured style keeps its id
                        ids.remove(h.id());
                    }
                    log.push(format!("{step}: manager {g}: unregister {k:?}"));
                    continue;
                }
            }
            let related = sheets[g].contains(&k.sheet);
            rep.case(&format!("{i}/{step}"), table[g].contains_key(&k) || related);
            let sig = format!("case:{i}/{step}");
            let h = match create(&mgrs[g].m, &k, &mgrs[g].prefix, &p, &mut r) {
                Ok(h) => h,
                Err(e) => {
                    rep.violation(&sig, format!("{e}\n{k:?}\n{}", p.text[k.sheet]));
                    break;
                }
            };
            log.push(format!("{step}: manager {g}: {k:?} -> {}", h.id()));
            let ctx = |w: String| format!("{w}\nmanagers: {:?}\nsheet:\n{}\nlast steps:\n{}", mgrs.iter().map(|m| (&m.prefix, m.ssr)).collect::<Vec<_>>(), p.text[k.sheet], log[log.len().saturating_sub(20)..].join("\n"));
            match table[g].get(&k) {
                Some(o) => {
                    rep.count("same_again", 1);
                    if o.id() != h.id() || o.css() != h.css() {
                        rep.violation(&sig, ctx(format!("the same style was created again as {} (was {})", h.id(), o.id())));
                    }
                }
                None => {
                    rep.count("new_styles", 1);
                    if related {
                        rep.count("related_styles", 1);
                    }
                    if let Some((g2, k2)) = ids.get(h.id()) {
                        rep.violation(&sig, ctx(format!("id {} already belongs to another style: manager {g2}, {k2:?}", h.id())));
                    }
                }
            }
            if let Err(e) = id_shape(h.id(), &k) {
                rep.violation(&sig, ctx(e));
            }
            // the style is the one asked for
            let want = p.sheet[k.sheet].to_style_str((!k.global).then_some(h.id()));
            if want != h.css() {
                rep.violation(&sig, ctx(format!("the style carries another sheet's CSS:\n{}", h.css())));
            }
            if let H::S(s) = &h {
                if s.get_class_name() != h.id() {
                    rep.violation(&sig, ctx("class name and id differ".into()));
                }
            }
            ids.insert(h.id().to_string(), (g, k.clone()));
            sheets[g].insert(k.sheet);
            table[g].insert(k, h);
        }
        if i < 2 {
            rep.sample(log[..log.len().min(6)].join("\n"));
        }
    }
    p09_many(&mut rep, seed);
    rep.finish()
}

/// Very many styles of one manager: each is a style of its own, and is found again.
fn p09_many(rep: &mut Report, seed: u64) {
    let n = rep.opts.n(150_000, 1_000_000);
    let m = StyleManager::builder().prefix("many".into()).build().unwrap();
    let mut r = Rng::derive(seed, "P09m", 0);
    let base = r.below(1_000_000);
    let text = |k: usize| match k % 3 {
        0 => format!("width: {}px;", base + k),
        1 => format!(".c{} {{ width: {}px; }}", base + k / 7, k % 7),
        _ => format!("content: \"{} {}\";", k % 7, base + k / 7),
    };
    let mut ids: Vec<(String, bool)> = vec![];
    let mut owner: HashMap<String, usize> = HashMap::new();
    let ask = |k: usize, global: bool| -> Result<(String, String), String> {
        guard(|| {
            if global {
                GlobalStyle::new_with_manager(text(k), &m).map(|s| (s.id().to_string(), s.get_style_str().to_string()))
            } else {
                Style::new_with_manager(text(k), &m).map(|s| (s.get_class_name().to_string(), s.get_style_str().to_string()))
            }
            .map_err(|e| e.to_string())
        })
        .unwrap_or_else(Err)
    };
    for k in 0..n {
        let global = k % 5 == 4;
        match ask(k, global) {
            Err(e) => {
                rep.violation(&format!("many:{k}"), format!("{e}\n{}", text(k)));
                return;
            }
            Ok((id, css)) => {
                let t = text(k);
                let mark = t.split(['{', '}']).find(|m| m.contains(':')).unwrap().trim();
                if let Some(o) = owner.insert(id.clone(), k) {
                    rep.violation(&format!("many:{k}"), format!("two styles share the id {id}:\n{}\n{}", text(o), t));
                    return;
                }
                if !css.contains(mark) {
                    rep.violation(&format!("many:{k}"), format!("the style carries another sheet's CSS: {t}\n{css}"));
                    return;
                }
                ids.push((id, global));
            }
        }
        if k % 8 == 7 {
            let o = r.below(ids.len());
            let (id, global) = &ids[o];
            rep.count("found_among_many", 1);
            match ask(o, *global) {
                Ok((i, _)) if i == *id => {}
                other => {
                    rep.violation(&format!("many:{k}/{o}"), format!("{} was {id}, created again among {} styles it is {other:?}", text(o), ids.len()));
                    return;
                }
            }
        }
    }
    rep.max("styles_of_one_manager", n as u64);
}

// ------------------------------------------------------------------ P10

/// Prints the ids of `n` styles made on `t` threads; also used to compare two processes.
pub fn p10_ids(threads: usize, n: usize, seed: u64) -> Vec<(String, String, bool, usize)> {
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            std::thread::spawn(move || {
                let mut r = Rng::derive(seed, "P10t", t as u64);
                let mut mgrs: Vec<(StyleManager, &str)> = vec![];
                for p in ["stylist", "stylist", *r.pick_of(PREFIXES)] {
                    mgrs.push((StyleManager::builder().prefix(p.into()).build().unwrap(), p));
                }
                let mut out = vec![];
                for i in 0..n {
                    if r.chance(1, 500) {
                        // a new manager with the same prefix, the old one goes away
                        let k = r.below(3);
                        mgrs[k].0 = StyleManager::builder().prefix(mgrs[k].1.into()).build().unwrap();
                    }
                    if r.chance(1, 200) {
                        std::thread::yield_now();
                    }
                    let (m, p) = &mgrs[r.below(3)];
                    // the same sheets on all threads: only the ids may differ
                    let sheet: Sheet = vec![stylist::ast::ScopeContent::Block(stylist::ast::Block {
                        condition: vec![].into(),
                        content: vec![stylist::ast::StyleAttribute { key: "width".into(), value: vec![format!("{i}px").into()].into() }.into()].into(),
                    })]
                    .into();
                    let g = r.chance(1, 4);
                    let own = match r.below(8) {
                        _ if g => None,
                        0 => Some("stylist-global"),
                        1 => Some(*r.pick_of(PREFIXES)),
                        _ => None,
                    };
                    let id = if g {
                        let s = GlobalStyle::new_with_manager(sheet, m).unwrap();
                        let id = s.id().to_string();
                        s.unregister();
                        id
                    } else {
                        let s = match own {
                            Some(p) => Style::create_with_manager(p, sheet, m),
                            None => Style::new_with_manager(sheet, m),
                        }
                        .unwrap();
                        let id = s.get_class_name().to_string();
                        s.unregister();
                        id
                    };
                    out.push((id, own.unwrap_or(p).to_string(), g, t));
                }
                out
            })
        })
        .collect();
    hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
}

pub fn p10(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(2500, 2500));
    let rounds = o.n(1, 20);
    let aux = o.rest.iter().position(|m| m == "--aux").and_then(|i| o.rest.get(i + 1)).cloned();
    let browser = o.rest.iter().position(|m| m == "--browser").and_then(|i| o.rest.get(i + 1)).cloned();
    let tier = o.tier.clone();
    let mut rep = Report::new(o, "styles (scoped, global, unregistered again, several managers with equal prefixes) are created on 8 threads at once, in a build with random ids, in a second process of it, in several instances of the wasm32 build, and in a build with counted ids, the latter also after hydrating ids from another process; all ids are collected and compared; non-trivial: every id; distinct by id");
    rep.require("random_ids", 10_000);
    rep.require("counted_ids", 10_000);
    rep.require("ids_in_documents", 2000);
    for round in 0..rounds as u64 {
        let here = p10_ids(8, n, seed + round);
        // another process, started from the same program
        let exe = std::env::current_exe().unwrap();
        let out = std::process::Command::new(exe).args(["P10", "--ids", &n.to_string(), "--seed", &(seed + round).to_string()]).output();
        let there: Vec<String> = match out {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).lines().map(|m| m.to_string()).collect(),
            o => {
                rep.inconclusive.push(format!("second process failed: {o:?}"));
                vec![]
            }
        };
        let mut seen: HashMap<String, usize> = HashMap::new();
        for (id, prefix, g, t) in &here {
            rep.case(id, true);
            rep.count("random_ids", 1);
            let k = Key { global: *g, prefix: prefix.clone(), sheet: 0 };
            if let Err(e) = id_shape(id, &k) {
                rep.violation("shape", e);
            }
            if let Some(o) = seen.insert(id.clone(), *t) {
                rep.violation("random:collision", format!("id {id} was given to two styles (threads {o} and {t})"));
            }
            if rep.too_many() {
                return rep.finish();
            }
        }
        for id in &there {
            rep.count("ids_of_second_process", 1);
            if seen.contains_key(id) {
                rep.violation("random:process", format!("id {id} was also given out by another process"));
                break;
            }
        }
        if round == 0 {
            rep.sample(here.iter().take(5).map(|m| m.0.clone()).collect::<Vec<_>>().join(" "));
        }
    }
    match browser {
        None => rep.inconclusive.push("no wasm32 build".into()),
        Some(b) => {
            let b: Vec<&str> = b.split('\t').collect();
            let out = std::process::Command::new(b[0]).args(&b[1..]).output().unwrap();
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            if !out.status.success() || !text.ends_with("E\n") {
                rep.inconclusive.push(format!("the wasm32 build failed: {}", String::from_utf8_lossy(&out.stderr)));
            }
            let mut seen: HashMap<String, String> = HashMap::new();
            for l in text.lines() {
                let Some((i, ids)) = l.strip_prefix("T ").and_then(|m| m.split_once(" ids ")) else {
                    if l.starts_with("V ") {
                        rep.violation("browser", l);
                    }
                    continue;
                };
                for id in ids.split_whitespace() {
                    rep.case(&format!("browser {i} {id}"), true);
                    rep.count("ids_in_documents", 1);
                    if let Some(o) = seen.insert(id.into(), i.into()) {
                        if !rep.too_many() {
                            rep.violation("browser:collision", format!("id {id} was given to two styles, by the applications {o} and {i}"));
                        }
                    }
                }
            }
        }
    }
    match aux {
        None => rep.inconclusive.push("no counted-id build".into()),
        Some(a) => {
            let small = if rep.opts.thorough() { 3000 } else { 300 };
            let modes = ["plain", "hydrated", "ssr"].iter().map(|m| (*m, n, seed)).chain((0..small).map(|i| ("small", 1 + i % 5, seed * 10_000 + i as u64)));
            for (mode, n, seed) in modes {
                let out = std::process::Command::new(&a).args([mode, &n.to_string(), &seed.to_string(), &tier]).output().unwrap();
                let text = String::from_utf8_lossy(&out.stdout).to_string();
                if !out.status.success() || !text.ends_with("END\n") {
                    rep.violation(&format!("counted:{mode}"), format!("creating styles failed: {}\n{}", out.status, String::from_utf8_lossy(&out.stderr)));
                    continue;
                }
                let mut seen: HashMap<String, String> = HashMap::new();
                for l in text.lines().filter(|l| *l != "END") {
                    let mut l = l.split('\t');
                    let (Some(id), Some(who)) = (l.next(), l.next()) else { continue };
                    if let (Some(g), Some(prefix)) = (l.next(), l.next()) {
                        rep.count("counted_ids_read", 1);
                        if let (Err(e), false) = (id_shape(id, &Key { global: g == "g", prefix: prefix.into(), sheet: 0 }), rep.too_many()) {
                            rep.violation("counted:shape", e);
                        }
                    }
                    rep.case(&format!("{mode} {id}"), true);
                    rep.count("counted_ids", 1);
                    rep.count("counted_ids_of_small_pages", (mode == "small") as u64);
                    if let Some(o) = seen.insert(id.into(), who.into()) {
                        if !rep.too_many() {
                            rep.violation(&format!("counted:{mode}"), format!("id {id} was given to two styles: {o} and {who}"));
                        }
                    }
                }
                if mode == "small" {
                    continue;
                }
                rep.sample(format!("{mode}: {}", text.lines().take(3).collect::<Vec<_>>().join(" | ")));
            }
        }
    }
    rep.finish()
}

// ------------------------------------------------------------------ P11

pub fn p11(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(400, 10_000));
    let mut rep = Report::new(o, "random histories of create / clone / drop / unregister (through fresh, cloned and stale handles) / drop manager over several managers, checked step by step against a reference registry, and the allocations left behind at the end of each history; non-trivial: a history with a stale unregistration or a dropped manager; distinct by history log");
    for c in ["stale_unregistrations", "managers_dropped", "registered_probes", "leak_probes", "reads_after_manager", "hydrated_probes", "stale_unregistrations_after_reload"] {
        rep.require(c, 50);
    }
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P11", i as u64);
        let p = pool(&mut r, if i % 30 == 29 { 300 } else { 10 });
        // first pass: let every cache settle; second pass: count what is left behind
        let mut marks = vec![];
        for pass in 0..3 {
            let before = live();
            let mut rr = Rng::derive(seed, "P11h", i as u64);
            let res = p11_history(&p, &mut rr, &mut rep, pass);
            if let Err((step, e, log)) = &res {
                rep.violation(&format!("case:{i}/{step}"), format!("{e}\nhistory:\n{log}"));
                break;
            }
            let log = res.unwrap();
            if pass == 0 {
                rep.case(&log, log.contains("stale") || log.contains("drop manager"));
                if i < 2 {
                    rep.sample(log);
                }
            } else {
                drop(log);
            }
            let after = live();
            marks.push((after.0 - before.0, after.1 - before.1));
        }
        p11_reloads(&p, &mut Rng::derive(seed, "P11r", i as u64), &mut rep, i);
        rep.count("leak_probes", 1);
        // counters and samples of the harness itself may grow in the first pass
        if let [_, a, b] = marks[..] {
            if a.1 > 0 && b.1 > 0 {
                rep.violation(&format!("leak:{i}"), format!("after all handles and managers were dropped, {} blocks ({} bytes) stayed allocated, and {} more after repeating the same history", a.1, a.0, b.1));
            }
        }
    }
    rep.finish()
}

/// A history over styles of a page: the same data is loaded again and again, so a style that was
/// unregistered comes back under the id an older handle still carries.
fn p11_reloads(p: &Pool, r: &mut Rng, rep: &mut Report, i: usize) {
    let srv = new_mgr(r, true);
    let n = p.text.len();
    let keys: Vec<Key> = (0..r.range(1, 6)).map(|_| rand_key(r, &srv.prefix, n)).collect();
    let mut page: BTreeMap<Key, String> = BTreeMap::new();
    for k in &keys {
        match create(&srv.m, k, &srv.prefix, p, r) {
            Ok(h) => {
                page.insert(k.clone(), h.id().to_string());
            }
            Err(e) => return rep.violation(&format!("reload:{i}"), e),
        }
    }
    let data = srv.reader.unwrap().read_style_data();
    let c = StyleManager::builder().prefix(srv.prefix.clone().into()).build().unwrap();
    // what is registered: the registration's number and the id
    let mut reg: BTreeMap<Key, (usize, String)> = BTreeMap::new();
    let mut hs: Vec<(H, Key, usize)> = vec![];
    let mut gen = 0;
    let mut log = String::new();
    for step in 0..40 {
        macro_rules! bad { ($($a:tt)*) => { return rep.violation(&format!("reload:{i}/{step}"), format!("{}\npage: {page:?}\nhistory:\n{log}", format!($($a)*))) } }
        match if step == 0 { 9 } else { r.below(10) } {
            0..=3 => {
                let k = r.pick_of(&keys).clone();
                log.push_str(&format!("{step}: create {k:?}\n"));
                // a page's style that was unregistered is a new style; keep this rare, as
                // nothing can be loaded over it
                if !reg.contains_key(&k) && !r.chance(1, 8) {
                    continue;
                }
                let h = match create(&c, &k, &srv.prefix, p, r) {
                    Ok(h) => h,
                    Err(e) => bad!("{e}"),
                };
                if h.css() != p.sheet[k.sheet].to_style_str((!k.global).then_some(h.id())) {
                    bad!("{k:?} carries other CSS:\n{}", h.css());
                }
                match reg.get(&k) {
                    Some((g, id)) => {
                        rep.count("hydrated_probes", (page.get(&k) == Some(id)) as u64);
                        if h.id() != id {
                            bad!("{k:?} was registered as {id} and is now {}", h.id());
                        }
                        hs.push((h, k, *g));
                    }
                    None => {
                        if page.values().any(|m| m == h.id()) || hs.iter().any(|m| m.0.id() == h.id()) {
                            bad!("an unregistered style came back: {k:?} as {}", h.id());
                        }
                        gen += 1;
                        reg.insert(k.clone(), (gen, h.id().to_string()));
                        hs.push((h, k, gen));
                    }
                }
            }
            4..=6 if !hs.is_empty() => {
                let (h, k, g) = r.pick_of(&hs);
                let stale = reg.get(k).map(|m| m.0) != Some(*g);
                log.push_str(&format!("{step}: unregister {k:?} of registration {g}{}\n", if stale { " (stale)" } else { "" }));
                let h = h.clone();
                if let Err(e) = guard(|| h.unregister()) {
                    bad!("unregister panicked: {e}");
                }
                if stale {
                    let same = reg.get(k).is_some_and(|m| m.1 == hs.iter().find(|m| m.2 == *g).unwrap().0.id());
                    rep.count("stale_unregistrations_after_reload", same as u64);
                    // the registration that took its place is still there
                    if let Some((_, id)) = reg.get(k) {
                        match create(&c, k, &srv.prefix, p, r) {
                            Ok(m) if m.id() == id => {}
                            Ok(m) => bad!("unregistering through a stale handle removed {id}, {k:?} is now {}", m.id()),
                            Err(e) => bad!("{e}"),
                        }
                    }
                } else {
                    reg.remove(k);
                }
            }
            7 if !hs.is_empty() => {
                let j = r.below(hs.len());
                log.push_str(&format!("{step}: drop handle of {:?}\n", hs[j].1));
                hs.swap_remove(j);
            }
            8.. => {
                log.push_str(&format!("{step}: load\n"));
                let other = reg.iter().any(|(k, m)| page.get(k).is_some_and(|id| *id != m.1));
                let res = guard(|| c.load_style_data(&data));
                if other {
                    if res.is_ok() {
                        bad!("loading over a style that has another id did not panic");
                    }
                    return;
                }
                if let Err(e) = res {
                    bad!("loading panicked: {e}");
                }
                for (k, id) in &page {
                    reg.entry(k.clone()).or_insert_with(|| {
                        gen += 1;
                        (gen, id.clone())
                    });
                }
            }
            _ => {}
        }
    }
}

fn p11_history(p: &Pool, r: &mut Rng, rep: &mut Report, pass: usize) -> Result<String, (usize, String, String)> {
    struct Live {
        h: H,
        k: Key,
        g: usize,
        /// which registration of the key this handle belongs to
        gen: usize,
        css: String,
        id: String,
    }
    let long = p.text.len() > 100;
    let ng = if long { r.range(1, 20) } else { r.range(1, 3) };
    let mut mgrs: Vec<Option<Mgr>> = (0..ng).map(|_| { let s = r.chance(1, 3); Some(new_mgr(r, s)) }).collect();
    let mut clones: Vec<StyleManager> = vec![];
    // reference: registered generation of each key, and its id
    let mut reg: Vec<BTreeMap<Key, (usize, String)>> = vec![BTreeMap::new(); ng];
    let mut captured: Vec<BTreeMap<Key, String>> = vec![BTreeMap::new(); ng];
    let mut hs: Vec<Live> = vec![];
    let mut gen = 0usize;
    let mut log = String::new();
    let count = |rep: &mut Report, k: &str| {
        if pass == 0 {
            rep.count(k, 1);
        }
    };
    for step in 0..if long { 2500 } else { 60 } {
        macro_rules! bad { ($($a:tt)*) => { return Err((step, format!($($a)*), log)) } }
        match r.below(12) {
            0..=4 => {
                let g = r.below(ng);
                let Some(m) = &mgrs[g] else { continue };
                let mut k = rand_key(r, &m.prefix, p.text.len());
                if r.chance(1, 2) {
                    // come back to a known key
                    if let Some(l) = (!hs.is_empty()).then(|| r.pick_of(&hs)) {
                        if l.g == g {
                            k = l.k.clone();
                        }
                    }
                }
                let h = match create(&m.m, &k, &m.prefix, p, r) {
                    Ok(h) => h,
                    Err(e) => bad!("{e}"),
                };
                log.push_str(&format!("{step}: m{g}: create {k:?} -> {}\n", if pass == 0 { "ok" } else { "" }));
                let cur = match reg[g].get(&k) {
                    Some((n, id)) => {
                        if id != h.id() {
                            bad!("a registered style was not found: {k:?} was {id}, now {}", h.id());
                        }
                        count(rep, "registered_probes");
                        *n
                    }
                    None => {
                        gen += 1;
                        match captured[g].get(&k) {
                            Some(id) => {
                                // server side: a captured style is rendered once, under one id
                                if id != h.id() {
                                    bad!("a captured style came back with another id: {id}, {}", h.id());
                                }
                            }
                            None => {
                                if hs.iter().any(|l| l.id == h.id()) {
                                    bad!("an unregistered or foreign style came back: {k:?} -> {}", h.id());
                                }
                            }
                        }
                        if m.ssr {
                            captured[g].insert(k.clone(), h.id().to_string());
                        }
                        reg[g].insert(k.clone(), (gen, h.id().to_string()));
                        gen
                    }
                };
                let (css, id) = (h.css().to_string(), h.id().to_string());
                hs.push(Live { h, k, g, gen: cur, css, id });
            }
            5 => {
                if hs.is_empty() {
                    continue;
                }
                let j = r.below(hs.len());
                let l = &hs[j];
                let c = Live { h: l.h.clone(), k: l.k.clone(), g: l.g, gen: l.gen, css: l.css.clone(), id: l.id.clone() };
                log.push_str(&format!("{step}: clone {j}\n"));
                hs.push(c);
            }
            6 => {
                if hs.is_empty() {
                    continue;
                }
                let j = r.below(hs.len());
                log.push_str(&format!("{step}: drop handle {j}\n"));
                // a dropped handle does not unregister the style
                hs.swap_remove(j);
            }
            7 | 8 => {
                if hs.is_empty() {
                    continue;
                }
                let j = r.below(hs.len());
                let l = &hs[j];
                let stale = reg[l.g].get(&l.k).map(|m| m.0) != Some(l.gen);
                log.push_str(&format!("{step}: unregister {j} of m{}{}\n", l.g, if stale { " (stale)" } else { "" }));
                let h = l.h.clone();
                if let Err(e) = guard(|| h.unregister()) {
                    bad!("unregister panicked: {e}");
                }
                if stale {
                    count(rep, "stale_unregistrations");
                } else {
                    reg[l.g].remove(&l.k);
                    count(rep, "unregistrations");
                }
            }
            9 => {
                let g = r.below(ng);
                if let Some(m) = &mgrs[g] {
                    if r.chance(1, 2) {
                        clones.push(m.m.clone());
                        if clones.last() != Some(&m.m) {
                            bad!("a clone of a manager is not equal to it");
                        }
                        log.push_str(&format!("{step}: clone manager {g}\n"));
                    }
                }
            }
            10 => {
                let g = r.below(ng);
                if r.chance(1, 3) && mgrs[g].is_some() {
                    let m = mgrs[g].take().unwrap();
                    clones.retain(|c| *c != m.m);
                    drop(m);
                    reg[g].clear();
                    log.push_str(&format!("{step}: drop manager {g}\n"));
                    count(rep, "managers_dropped");
                }
            }
            _ => {
                // every handle stays readable and unchanged, whatever happened around it
                for l in &hs {
                    if l.h.css() != l.css || l.h.id() != l.id {
                        bad!("a handle changed: {} {}", l.id, l.h.id());
                    }
                    if mgrs[l.g].is_none() {
                        count(rep, "reads_after_manager");
                    }
                }
            }
        }
    }
    // final sweep: exactly the registered keys are found again
    for g in 0..ng {
        let Some(m) = &mgrs[g] else { continue };
        let keys: HashSet<Key> = hs.iter().filter(|l| l.g == g).map(|l| l.k.clone()).collect();
        let mut keys: Vec<Key> = keys.into_iter().collect();
        keys.sort();
        for k in keys {
            let h = match create(&m.m, &k, &m.prefix, p, r) {
                Ok(h) => h,
                Err(e) => return Err((99, e, log)),
            };
            let expect = reg[g].get(&k).map(|m| m.1.clone()).or(captured[g].get(&k).cloned());
            match expect {
                Some(id) if id != h.id() => return Err((99, format!("registered style {id} was not found, got {}", h.id()), log)),
                None if hs.iter().any(|l| l.id == h.id()) => return Err((99, format!("unregistered style {} is still there", h.id()), log)),
                _ => {}
            }
            if pass == 0 {
                rep.count("registered_probes", 1);
            }
        }
    }
    Ok(log)
}

// ------------------------------------------------------------------ P12

const BROKEN_VALUES: &[&str] = &["red; }", "red }", "\"", "'", "\"a", "{", "a { b", "}", "red; } .x {", "/*", "rgb(1", "[a", "fn(1]", "1px)", "a]", "url(x", "f(g(1)"];
const BROKEN_SELECTORS: &[&str] = &["", "a {", "}", ".a \"", "a; b", "{}", "a[b", ":is(a"];

const BROKEN_CONDITIONS: &[&str] = &["print {", "print; @media screen", "}", "\"", "(min-width: 1px", "/*", "print { a { b: c; } } .x", "] (a: b)"];

#[derive(Clone, Copy, PartialEq)]
enum Place {
    Value,
    Selector,
    Condition,
}

/// Puts a piece somewhere into a model.
fn corrupt(md: &mut Vec<Item>, place: Place, piece: &str, r: &mut Rng) {
    fn decls<'a>(v: &'a mut [Decl], out: &mut Vec<&'a mut String>) {
        out.extend(v.iter_mut().map(|d| &mut d.val));
    }
    fn body<'a>(v: &'a mut [Body], place: Place, out: &mut Vec<&'a mut String>) {
        for b in v {
            match b {
                Body::Decl(d) if place == Place::Value => out.push(&mut d.val),
                Body::Decl(_) => {}
                Body::At(a, b) => {
                    if place == Place::Condition {
                        out.push(&mut a.cond);
                    }
                    body(b, place, out);
                }
            }
        }
    }
    fn items<'a>(v: &'a mut [Item], place: Place, out: &mut Vec<&'a mut String>) {
        for i in v {
            match i {
                Item::Dangling(d) if place == Place::Value => decls(d, out),
                Item::Dangling(_) => {}
                Item::Block(_, b) => body(b, place, out),
                Item::At(a, v) => {
                    if place == Place::Condition {
                        out.push(&mut a.cond);
                    }
                    items(v, place, out);
                }
                Item::Keyframes(_, f) if place == Place::Value => f.iter_mut().for_each(|f| decls(&mut f.1, out)),
                Item::Keyframes(..) => {}
            }
        }
    }
    let red = || vec![Body::Decl(Decl { key: "color".into(), val: "red".into() })];
    if place != Place::Selector {
        let mut spots = vec![];
        items(md, place, &mut spots);
        if !spots.is_empty() && r.chance(4, 5) {
            let k = r.below(spots.len());
            let old = &*spots[k];
            let new = match r.below(4) {
                0 if place == Place::Value => format!("{old} {piece}"),
                1 if place == Place::Value => format!("{piece} {old}"),
                _ => piece.to_string(),
            };
            *spots[k] = new;
            return;
        }
    }
    let block = match place {
        Place::Selector => {
            let mut sels = vec![Sel::lit(piece)];
            if r.chance(1, 3) && !piece.is_empty() {
                sels.insert(r.below(2), Sel::lit(".other"));
            }
            Item::Block(sels, red())
        }
        Place::Condition => Item::At(At { tag: "@media", cond: piece.into() }, vec![Item::Block(vec![Sel::lit(".w")], red())]),
        Place::Value => {
            let mut b = red();
            b.insert(r.below(2), Body::Decl(Decl { key: "color".into(), val: piece.into() }));
            Item::Block(vec![Sel::lit(".w")], b)
        }
    };
    // within an at-rule, or anywhere on the top level
    let ats: Vec<usize> = (0..md.len()).filter(|i| matches!(md[*i], Item::At(..))).collect();
    if !ats.is_empty() && r.chance(1, 2) {
        let k = ats[r.below(ats.len())];
        if let Item::At(_, v) = &mut md[k] {
            let n = r.below(v.len() + 1);
            v.insert(n, block);
        }
    } else {
        let n = r.below(md.len() + 1);
        md.insert(n, block);
    }
}

pub fn p12(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(3000, 100_000));
    let mut rep = Report::new(o, "between valid creations, styles are created from malformed text (must return an error) and from sheets whose pieces make the emitted CSS malformed (must panic in debug builds); the manager's registry, captured data and ids of all other styles are compared before and after; non-trivial: every failed creation; distinct by the source given");
    rep.require("rejected_texts", 300);
    rep.require("refused_sheets", 300);
    rep.require("refused_values", 100);
    rep.require("refused_selectors", 50);
    rep.require("refused_conditions", 50);
    rep.require("controls_accepted", 300);
    let mut r = Rng::derive(seed, "P12", 0);
    let p = pool(&mut r, 30);
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P12", 1 + i as u64);
        let (w, reader) = render_static();
        let mgr = StyleManager::builder().prefix("t".into()).writer(w).build().unwrap();
        let plain = StyleManager::builder().prefix("t".into()).build().unwrap();
        let keep: Vec<Key> = (0..r.range(1, 4)).map(|_| rand_key(&mut r, "t", p.text.len())).collect();
        let mk = |m: &StyleManager, k: &Key, r: &mut Rng| create(m, k, "t", &p, r);
        let mut before = vec![];
        for k in &keep {
            match (mk(&mgr, k, &mut r), mk(&plain, k, &mut r)) {
                (Ok(a), Ok(b)) => before.push((a, b)),
                (a, b) => {
                    rep.violation(&format!("case:{i}"), format!("{a:?} {b:?}"));
                    return rep.finish();
                }
            }
        }
        // failed creations
        let mut what = vec![];
        for _ in 0..r.range(1, 3) {
            let m = if r.chance(2, 3) { &mgr } else { &plain };
            let global = r.chance(1, 3);
            if r.chance(1, 2) {
                let bad = match r.below(4) {
                    0 => format!("{} }}", p.text[r.below(p.text.len())]),
                    1 => format!(".a {{ color: {}", r.below(1000)),
                    2 => format!("color {}; ", r.below(1000)),
                    _ => format!("content: \"{}", r.below(1000)),
                };
                rep.case(&bad, true);
                rep.count("rejected_texts", 1);
                let res = guard(|| match global {
                    true => GlobalStyle::new_with_manager(bad.as_str(), m).map(H::G),
                    false => Style::new_with_manager(bad.as_str(), m).map(H::S),
                });
                match res {
                    Ok(Err(_)) => {}
                    Ok(Ok(h)) => rep.violation(&format!("case:{i}"), format!("malformed text became a style:\n{bad}\n{}", h.css())),
                    Err(p) => rep.violation(&format!("case:{i}"), format!("malformed text made creation panic: {p}\n{bad}")),
                }
                what.push(bad);
            } else {
                let mut md = gen_model(&mut r, &Profile { max_items: 4, empties: false, ..Profile::full() });
                let control = r.chance(1, 3);
                let place = *r.pick_of(&[Place::Value, Place::Value, Place::Selector, Place::Condition]);
                let bad = match place {
                    Place::Value => *r.pick_of(BROKEN_VALUES),
                    Place::Selector => *r.pick_of(BROKEN_SELECTORS),
                    Place::Condition => *r.pick_of(BROKEN_CONDITIONS),
                };
                let piece = match (control, place) {
                    (false, _) => bad,
                    (true, Place::Value) => "blue",
                    (true, Place::Selector) => ".ok",
                    (true, Place::Condition) => "print",
                };
                corrupt(&mut md, place, piece, &mut r);
                let sheet = conv::sheet(&md, None);
                // independent opinion: is the emitted text well formed CSS?
                let text = sheet.to_style_str(if global { None } else { Some("t-x") });
                rep.case(&text, true);
                let res = guard(|| match global {
                    true => GlobalStyle::new_with_manager(sheet.clone(), m).map(H::G),
                    false => Style::new_with_manager(sheet.clone(), m).map(H::S),
                });
                if control {
                    if let (Ok(Ok(h)), true) = (&res, css::read(&text).is_ok()) {
                        rep.count("controls_accepted", 1);
                        h.unregister();
                        // captured data keeps it, note what to expect
                        what.push(format!("control {}", h.id()));
                    } else {
                        rep.violation(&format!("case:{i}"), format!("a well formed sheet was refused: {:?}\n{text}", res.err()));
                    }
                } else if css::read(&text).is_ok() {
                    // it closes and opens just the right things, this cannot be told from a sheet that says so
                    rep.count("well_formed_by_accident", 1);
                    if let Ok(Ok(h)) = res {
                        h.unregister();
                        what.push(format!("control {}", h.id()));
                    }
                } else {
                    rep.count("refused_sheets", 1);
                    rep.count(match place { Place::Value => "refused_values", Place::Selector => "refused_selectors", Place::Condition => "refused_conditions" }, 1);
                    match res {
                        Err(_) => {}
                        Ok(Err(_)) => {}
                        Ok(Ok(h)) => rep.violation(&format!("case:{i}"), format!("a piece {bad:?} corrupted the CSS, unnoticed:\n{}", h.css())),
                    }
                    what.push(text);
                }
            }
        }
        // nothing but the kept styles is there, they are unchanged, the managers still work
        let sig = format!("case:{i}");
        for (k, (a, b)) in keep.iter().zip(&before) {
            match (mk(&mgr, k, &mut r), mk(&plain, k, &mut r)) {
                (Ok(a2), Ok(b2)) => {
                    if a2.id() != a.id() || b2.id() != b.id() || a2.css() != a.css() {
                        rep.violation(&sig, format!("a style changed after a failed creation: {} -> {}", a.id(), a2.id()));
                    }
                }
                (a, b) => rep.violation(&sig, format!("the manager no longer works after a failed creation: {:?} {:?}\n{}", a.err(), b.err(), what.join("\n---\n"))),
            }
        }
        let fresh = Key { global: false, prefix: "late".into(), sheet: r.below(p.text.len()) };
        let late = match mk(&mgr, &fresh, &mut r) {
            Ok(h) => h.id().to_string(),
            Err(e) => {
                rep.violation(&sig, format!("no new style after a failed creation: {e}"));
                continue;
            }
        };
        let data = reader.read_style_data();
        let mut markup = String::new();
        data.write_static_markup(&mut markup).unwrap();
        let ids: Vec<String> = crate::p_ssr::elements(&markup).map(|v| v.into_iter().map(|m| m.0).collect()).unwrap_or_default();
        let mut exp: Vec<String> = vec![];
        for (a, _) in &before {
            if !exp.contains(&a.id().to_string()) {
                exp.push(a.id().to_string());
            }
        }
        let controls: HashSet<String> = what.iter().filter_map(|m| m.strip_prefix("control ").map(|m| m.to_string())).collect();
        exp.push(late);
        let got: Vec<String> = ids.into_iter().filter(|m| !controls.contains(m)).collect();
        if got != exp {
            rep.violation(&sig, format!("captured styles after failed creations: {got:?}, expected {exp:?}\nfailed:\n{}", what.join("\n---\n")));
        }
        if i < 3 {
            rep.sample(what.join("\n---\n"));
        }
    }
    rep.finish()
}
