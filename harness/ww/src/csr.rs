//! P28: whatever a tree of components renders, its styles are in the document; global ones only as long as they are
//! rendered. P30: a page rendered on the server stays as it is when a client takes over.
use crate::env;
use oracle::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use stylist::manager::StyleManager;
use trees::comps::{forget, said, show, Mgrs, NodeProps, Root, RootProps, Tree};
use trees::world::*;

const CONTAINERS: &[&str] = &["head", "body", "div", "detached", "shadow", "inner-shadow", "iframe", "fragment"];

/// (container, id, text)
type Found = (String, String, String);

struct State {
    r: Rng,
    prop: &'static str,
    texts: Vec<Text>,
    world: World,
    tree: Rc<Tree>,
    mgrs: Vec<StyleManager>,
    /// where each manager's styles go, and the prefix
    at: Vec<(String, String)>,
    /// scoped styles made so far: (manager, meaning); the last one stands for the default manager
    used: BTreeSet<(usize, String)>,
    app: usize,
    handle: Option<yew::AppHandle<Root>>,
    rounds: usize,
    next: usize,
    log: String,
    nontrivial: bool,
    /// what the server rendered: the elements, and the styles
    server: Option<(String, Vec<Found>)>,
}

fn head() -> String {
    "0".into()
}

impl State {
    fn leaves(&self) -> Vec<(String, usize, bool, String, Option<String>)> {
        let mut v = vec![];
        for (l, ctx) in &self.world.leaves {
            for (source, global, meaning, n) in expected(l, &self.texts) {
                v.push((source, ctx.unwrap_or(self.mgrs.len()), global, meaning, n));
            }
        }
        v
    }

    fn check(&mut self) -> Result<(), String> {
        let html = env::request(format_args!("html {}", self.app));
        let els = elements(&html)?;
        let found = env::all_styles();
        let mut by: BTreeMap<&str, &Found> = BTreeMap::new();
        for f in &found {
            if by.insert(&f.1, f).is_some() {
                return Err(format!("{} is in the document twice", f.1));
            }
        }
        let leaves = self.leaves();
        self.nontrivial |= leaves.iter().any(|l| l.2 || l.1 < self.mgrs.len());
        let mut shown = BTreeSet::new();
        for (source, m, global, meaning, n) in &leaves {
            if *global {
                continue;
            }
            self.used.insert((*m, meaning.clone()));
            let n = n.as_ref().unwrap();
            shown.insert(n.clone());
            let attrs = els.get(n).ok_or(format!("element {n} ({source}) is not rendered\n{html}"))?;
            let class = attrs.get("class").map(|m| m.as_str()).unwrap_or("");
            let classes: Vec<&str> = class.split_whitespace().filter(|m| !m.contains(".rs:") && *m != "other").collect();
            let [class] = classes[..] else { return Err(format!("element {n} ({source}) has the classes {classes:?}")) };
            let (place, prefix) = &self.at[*m];
            let f = by.get(class).ok_or(format!("element {n} ({source}) has class {class}, which no style in the document has"))?;
            if f.0 != *place || !home(class).starts_with(&format!("{prefix}-")) {
                return Err(format!("element {n} ({source}) has class {class}, a style of container {}; its nearest manager is that of container {place} with prefix {prefix}", f.0));
            }
            if normal(class, &f.2) != *meaning {
                return Err(format!("class {class} of element {n} ({source}) says\n{}\ninstead of\n{meaning}", normal(class, &f.2)));
            }
            env::count("classes_resolved", 1);
        }
        if self.prop == "P28" {
            let extra: Vec<&String> = els.keys().filter(|n| !shown.contains(*n) && !self.world.medias.iter().any(|m| m.0.to_string() == **n)).collect();
            if !extra.is_empty() {
                return Err(format!("the elements {extra:?} are still rendered"));
            }
        }
        for (n, fallback) in &self.world.medias {
            // the window is 1000 pixels wide
            let a = els.get(&n.to_string()).ok_or(format!("media query {n} is not rendered"))?;
            if a.get("data-wide").map(|m| m.as_str()) != Some("true") {
                return Err(format!("media query {n} shows {a:?}"));
            }
            // without a server nobody has to guess
            let said = said(*n);
            if said.first() != Some(&(self.server.is_none() || *fallback)) || said.last() != Some(&true) {
                return Err(format!("media query {n} with fallback {fallback} said {said:?}"));
            }
            env::count("media_queries_followed", 1);
        }
        // what there is: (container, prefix, global, meaning) -> how many
        let mut got: BTreeMap<(String, String, bool, String), usize> = BTreeMap::new();
        for (c, id, text) in &found {
            let p = self.at.iter().filter(|a| a.0 == *c && home(id).starts_with(&format!("{}-", a.1))).map(|a| &a.1).max_by_key(|p| p.len()).ok_or(format!("style {id} in container {c} belongs to no manager"))?;
            let global = id.starts_with(&format!("{p}-global-"));
            *got.entry((c.clone(), p.clone(), global, if global { read(text) } else { normal(id, text) })).or_default() += 1;
        }
        let mut want: BTreeMap<(String, String, bool, String), (usize, usize)> = BTreeMap::new();
        for (m, meaning) in &self.used {
            let a = &self.at[*m];
            let e = want.entry((a.0.clone(), a.1.clone(), false, meaning.clone())).or_default();
            e.0 += 1;
            e.1 += 1;
        }
        let mut kinds = BTreeSet::new();
        for (_, m, global, meaning, _) in &leaves {
            if *global {
                let a = &self.at[*m];
                let e = want.entry((a.0.clone(), a.1.clone(), true, meaning.clone())).or_default();
                e.1 += 1;
                // (one that was unregistered by another component goes on beside a new one)
                if kinds.insert((*m, meaning.clone())) {
                    e.0 += 1;
                }
            }
        }
        for (k, n) in &got {
            let (lo, hi) = want.get(k).copied().unwrap_or((0, 0));
            if *n < lo || *n > hi {
                return Err(format!("container {} has {n} styles of prefix {}{} saying\n{}\nwhere {lo} to {hi} should be", k.0, k.1, if k.2 { " (global)" } else { "" }, k.3));
            }
        }
        for (k, (lo, _)) in &want {
            if *lo > 0 && !got.contains_key(k) {
                return Err(format!("container {} has no style of prefix {}{} saying\n{}", k.0, k.1, if k.2 { " (global)" } else { "" }, k.3));
            }
        }
        env::count("global_styles_compared", got.iter().filter(|g| g.0 .2).map(|g| g.1).sum());
        env::count("scoped_styles_compared", got.iter().filter(|g| !g.0 .2).map(|g| g.1).sum());
        env::count("states_compared", 1);
        Ok(())
    }

    /// What the client finds is what the server said.
    fn check_taken_over(&self) -> Result<(), String> {
        let Some((html, styles)) = &self.server else { return Ok(()) };
        let now = elements(&env::request(format_args!("html {}", self.app)))?;
        let before = elements(html)?;
        for (n, a) in &before {
            if self.world.medias.iter().any(|m| m.0.to_string() == *n) {
                continue;
            }
            if now.get(n) != Some(a) {
                return Err(format!("element {n} was {a:?}, and is {:?} on the client", now.get(n)));
            }
            env::count("elements_taken_over", 1);
        }
        let found = env::all_styles();
        let a: BTreeSet<&Found> = styles.iter().collect();
        let b: BTreeSet<&Found> = found.iter().collect();
        if a != b || styles.len() != found.len() {
            return Err(format!("the server rendered the styles {:?}, the client has {:?}", a.difference(&b).map(|m| &m.1).collect::<Vec<_>>(), b.difference(&a).map(|m| &m.1).collect::<Vec<_>>()));
        }
        env::count("styles_taken_over", found.len());
        Ok(())
    }

    fn say(&self, e: Option<String>) -> bool {
        env::case(&self.log, self.nontrivial);
        if let Some(e) = e {
            let errs = env::request("errors");
            env::violation("tree", &format!("{e}\nmanagers: {:?}\ntrees: {}\n{errs}", self.at, self.log));
        }
        false
    }

    fn step(&mut self, n: usize) -> bool {
        if n == 0 {
            let start = NodeProps { tree: self.tree.clone(), mgrs: Mgrs(Rc::new(self.mgrs.clone())) };
            let rd = yew::Renderer::<Root>::with_root_and_props(crate::element(self.app), RootProps { start });
            self.handle = Some(if self.server.is_some() { rd.hydrate() } else { rd.render() });
            self.log.push_str(&self.world.shape);
            return true;
        }
        if n == 1 {
            if let Err(e) = self.check_taken_over() {
                return self.say(Some(e));
            }
        }
        if self.handle.is_some() {
            if let Err(e) = self.check() {
                return self.say(Some(e));
            }
        }
        if n > self.rounds {
            if let Some(h) = self.handle.take() {
                self.log.push_str(" | unmount");
                h.destroy();
                return true;
            }
            // nothing global is left, and nothing at all without the managers
            self.world.leaves.clear();
            self.world.medias.clear();
            let res = self.check();
            forget();
            self.mgrs.clear();
            let left: Vec<Found> = env::all_styles().into_iter().filter(|f| !home(&f.1).starts_with("stylist-")).collect();
            let res = res.and(if left.is_empty() { Ok(()) } else { Err(format!("without managers there are still {:?}", left.iter().map(|l| &l.1).collect::<Vec<_>>())) });
            return self.say(res.err());
        }
        let none = self.r.chance(1, 10);
        let mgrs = self.mgrs.len();
        let mut w = World { mgrs: vec![], trees: vec![], leaves: vec![], medias: vec![], providers: vec![], shape: String::new() };
        if none {
            show(None);
        } else {
            self.tree = match self.r.below(6) {
                0 => {
                    self.next += 1000;
                    let next = &mut self.next;
                    mutate(&mutate(&self.tree, &mut self.r, &self.texts, mgrs, true, next), &mut self.r, &self.texts, mgrs, true, next)
                }
                1 => self.tree.clone(),
                _ => {
                    let swap = self.r.chance(1, 2);
                    mutate(&self.tree, &mut self.r, &self.texts, mgrs, swap, &mut self.next)
                }
            };
            collect(&self.tree, None, &mut w);
            show(Some(self.tree.clone()));
            if self.r.chance(1, 6) {
                // not even rendered before the next one
                env::count("overtaken_renders", 1);
                show(None);
                show(Some(self.tree.clone()));
            }
        }
        self.log.push_str(" | ");
        self.log.push_str(&w.shape);
        self.world = w;
        env::count("renders", 1);
        true
    }
}

pub fn case(seed: u64, index: u64, hydrate: bool) -> crate::Step {
    let prop = if hydrate { "P30" } else { "P28" };
    let mut r = Rng::derive(seed, prop, index);
    let texts = texts(&mut r, 5);
    let mut world = world(&mut r, &texts, prop);
    let tree = world.trees.pop().unwrap();
    let mut kinds: Vec<String> = vec!["head".into()];
    env::container_new("head");
    let mut mgrs = vec![];
    let mut at = vec![];
    for s in &world.mgrs {
        let kind = if hydrate { "head" } else { *r.pick_of(CONTAINERS) };
        let c = kinds.iter().position(|k| k == kind).unwrap_or_else(|| {
            kinds.push(kind.into());
            env::container_new(kind)
        });
        let mut b = StyleManager::builder().prefix(s.prefix.clone().into()).append(r.chance(3, 4));
        if kind != "head" {
            b = b.container(env::node(c));
        }
        mgrs.push(b.build().unwrap());
        at.push((c.to_string(), s.prefix.clone()));
    }
    at.push((head(), "stylist".into()));
    let app = env::container_new("div");
    let rounds = r.range(1, 6);
    let server = hydrate.then(|| {
        let html = env::request(format_args!("markup {app}"));
        (html, env::all_styles())
    });
    let mut s = State { r, prop, texts, world, tree, mgrs, at, used: BTreeSet::new(), app, handle: None, rounds, next: 10000, log: String::new(), nontrivial: false, server };
    Box::new(move |n| s.step(n))
}
