//! P24: the style elements of a container are those of the styles that are in use.
use crate::env::{self, Kid};
use oracle::rng::Rng;
use std::collections::BTreeMap;
use stylist::manager::StyleManager;
use stylist::{GlobalStyle, Style};
use trees::world::{normal, read, texts, Text};

struct Mgr {
    prefix: String,
    container: usize,
    append: bool,
    /// no handle left: the manager is gone
    handles: Vec<StyleManager>,
}

enum Handle {
    Scoped(Style),
    Global(GlobalStyle),
}

struct Content {
    mgr: usize,
    key: (String, usize, bool),
    id: String,
    registered: bool,
    handles: Vec<Handle>,
    /// its element was taken away by someone else
    stolen: bool,
}

#[derive(Clone, PartialEq, Debug)]
enum Entry {
    Style(usize),
    Other(String),
}

struct Model {
    texts: Vec<Text>,
    mgrs: Vec<Mgr>,
    contents: Vec<Content>,
    containers: Vec<(String, Vec<Entry>)>,
    log: String,
}

const CONTAINERS: &[&str] = &["head", "body", "div", "detached", "shadow", "inner-shadow", "iframe", "iframe-shadow", "fragment", "svg"];
const PREFIXES: &[&str] = &["stylist", "app", "my-app", "x_", "Ünï", "a--b"];

impl Model {
    fn alive(&self, c: usize) -> bool {
        let c = &self.contents[c];
        !c.handles.is_empty() || (c.registered && !self.mgrs[c.mgr].handles.is_empty())
    }

    fn sweep(&mut self) {
        let dead: Vec<usize> = (0..self.contents.len()).filter(|c| !self.alive(*c)).collect();
        for (_, kids) in &mut self.containers {
            kids.retain(|k| !matches!(k, Entry::Style(c) if dead.contains(c)));
        }
    }

    fn compare(&self) -> Result<usize, String> {
        let mut seen = 0;
        for (i, (kind, want)) in self.containers.iter().enumerate() {
            let got = env::kids(i);
            let name = |k: &Kid| match k {
                Kid::Style { id, .. } => match self.contents.iter().position(|c| c.id == *id) {
                    Some(c) => Entry::Style(c),
                    None => Entry::Other(format!("unknown style {id}")),
                },
                Kid::Other(s) => Entry::Other(s.clone()),
            };
            let names: Vec<Entry> = got.iter().map(name).collect();
            if names != *want {
                let text = |v: &[Entry]| v.iter().map(|e| match e { Entry::Style(c) => format!("{} ({})", self.contents[*c].id, if self.alive(*c) { "in use" } else { "not in use" }), Entry::Other(s) => s.clone() }).collect::<Vec<_>>().join(", ");
                return Err(format!("container {i} ({kind}) has [{}]\ninstead of [{}]", text(&names), text(want)));
            }
            for k in &got {
                let Kid::Style { id, text } = k else { continue };
                let c = self.contents.iter().find(|c| c.id == *id).unwrap();
                seen += 1;
                let t = &self.texts[c.key.1];
                let (got, want) = if c.key.2 { (read(text), &t.global) } else { (normal(id, text), &t.scoped) };
                if got != *want {
                    return Err(format!("the element of {id} says\n{got}\ninstead of\n{want}"));
                }
            }
        }
        // none elsewhere
        let all = env::all_styles();
        let known: usize = self.containers.iter().map(|(_, k)| k.iter().filter(|k| matches!(k, Entry::Style(_))).count()).sum();
        if all.len() != known {
            return Err(format!("there are {} style elements, {known} expected: {:?}", all.len(), all.iter().map(|a| (&a.0, &a.1)).collect::<Vec<_>>()));
        }
        Ok(seen)
    }

    fn create(&mut self, r: &mut Rng) -> Result<(), String> {
        let m = r.below(self.mgrs.len());
        let Some(h) = self.mgrs[m].handles.last().cloned() else { return Ok(()) };
        let t = r.below(self.texts.len());
        let global = r.chance(1, 4);
        let own = !global && r.chance(1, 5);
        let prefix = if own { "own".to_string() } else if global { format!("{}-global", self.mgrs[m].prefix) } else { self.mgrs[m].prefix.clone() };
        let text = self.texts[t].text.to_string();
        let full = r.chance(1, 10);
        if full {
            env::request(format_args!("full {} 1", self.mgrs[m].container));
        }
        let res = if global {
            GlobalStyle::new_with_manager(text, h).map(Handle::Global)
        } else if own {
            Style::create_with_manager("own", text, h).map(Handle::Scoped)
        } else {
            Style::new_with_manager(text, &h).map(Handle::Scoped)
        };
        if full {
            env::request(format_args!("full {} 0", self.mgrs[m].container));
        }
        self.log.push_str(&format!("create(m{m} t{t}{}{}{}) ", if global { " global" } else { "" }, if own { " own" } else { "" }, if full { " full" } else { "" }));
        let key = (prefix.clone(), t, global);
        let known = self.contents.iter().position(|c| c.mgr == m && c.registered && c.key == key);
        let handle = match (res, full && known.is_none()) {
            (Err(_), true) => {
                env::count("failed_mounts", 1);
                return Ok(());
            }
            (Ok(_), true) => return Err("a style could not be mounted, but was created".into()),
            (Err(e), false) => return Err(format!("creating a style failed: {e:?}")),
            (Ok(h), false) => h,
        };
        let id = match &handle {
            Handle::Scoped(s) => s.get_class_name().to_string(),
            Handle::Global(s) => s.id().to_string(),
        };
        if let Some(c) = known {
            if self.contents[c].id != id {
                return Err(format!("the style is still registered as {}, but this one is {id}", self.contents[c].id));
            }
            self.contents[c].handles.push(handle);
            env::count("shared", 1);
            return Ok(());
        }
        if let Some(c) = self.contents.iter().find(|c| c.id == id) {
            return Err(format!("the new style of {key:?} has the id {id} of {:?}", c.key));
        }
        if !id.starts_with(&prefix) {
            return Err(format!("id {id} does not start with {prefix}"));
        }
        let c = self.contents.len();
        self.contents.push(Content { mgr: m, key, id, registered: true, handles: vec![handle], stolen: false });
        let kids = &mut self.containers[self.mgrs[m].container].1;
        if self.mgrs[m].append {
            kids.push(Entry::Style(c));
        } else {
            kids.insert(0, Entry::Style(c));
        }
        env::count("mounted", 1);
        Ok(())
    }
}

pub fn case(seed: u64, index: u64) -> crate::Step {
    let mut r = Rng::derive(seed, "MOUNT", index);
    let mut done = false;
    Box::new(move |_| {
        if std::mem::replace(&mut done, true) {
            return false;
        }
        let tx = texts(&mut r, 4);
        let mut m = Model { texts: tx, mgrs: vec![], contents: vec![], containers: vec![], log: String::new() };
        let res = run(&mut m, &mut r);
        let mut by: BTreeMap<&str, usize> = BTreeMap::new();
        for c in &m.contents {
            *by.entry(m.containers[m.mgrs[c.mgr].container].0.as_str()).or_default() += 1;
        }
        for (k, n) in by {
            env::count(&format!("styles_in_{k}"), n);
        }
        let nontrivial = m.contents.iter().any(|c| !c.registered && c.handles.is_empty());
        env::case(&m.log, nontrivial);
        if let Err(e) = res {
            let k: Vec<&str> = m.mgrs.iter().map(|g| m.containers[g.container].0.as_str()).collect();
            env::violation("mount", &format!("{e}\nmanagers in {k:?}\nafter: {}", m.log));
        }
        false
    })
}

fn run(m: &mut Model, r: &mut Rng) -> Result<(), String> {
    let n = r.range(1, 3);
    for i in 0..n {
        let kind = *r.pick_of(CONTAINERS);
        let c = match m.containers.iter().position(|c| c.0 == kind) {
            Some(c) => c,
            None => {
                let c = env::container_new(&format!("{kind} {}", r.pick(&["element", "element", "nothing", "text", "comment"])));
                assert_eq!(c, m.containers.len());
                let kids = env::kids(c).into_iter().map(|k| match k { Kid::Other(s) => Entry::Other(s), Kid::Style { id, .. } => Entry::Other(id) }).collect();
                m.containers.push((kind.into(), kids));
                c
            }
        };
        let prefix = if r.chance(1, 3) { r.pick(PREFIXES).to_string() } else { format!("{}{i}", r.pick(PREFIXES)) };
        let append = r.chance(2, 3);
        let mut b = StyleManager::builder().prefix(prefix.clone().into());
        // the head is where styles go when nothing else is said
        if kind != "head" || r.chance(1, 2) {
            b = b.container(env::node(c));
        }
        if !append || r.chance(1, 2) {
            b = b.append(append);
        }
        let h = b.build().map_err(|e| format!("building a manager failed: {e:?}"))?;
        if h.container().as_ref() != Some(&env::node(c)) {
            return Err(format!("manager {i} does not have the container it was given"));
        }
        m.mgrs.push(Mgr { prefix, container: c, append, handles: vec![h] });
    }
    let ops = r.range(8, 40);
    for _ in 0..ops {
        let live: Vec<usize> = (0..m.contents.len()).filter(|c| !m.contents[*c].handles.is_empty()).collect();
        match r.below(12) {
            0..=4 => m.create(r)?,
            5..=6 if !live.is_empty() => {
                let c = *r.pick_of(&live);
                m.log.push_str(&format!("drop(c{c}) "));
                let k = r.below(m.contents[c].handles.len());
                m.contents[c].handles.remove(k);
            }
            7 if !live.is_empty() => {
                let c = *r.pick_of(&live);
                m.log.push_str(&format!("unregister(c{c}) "));
                match &m.contents[c].handles[0] {
                    Handle::Scoped(s) => s.unregister(),
                    Handle::Global(s) => s.unregister(),
                }
                m.contents[c].registered = false;
                if r.chance(1, 2) {
                    m.log.push_str("all ");
                    m.contents[c].handles.clear();
                }
            }
            8 if !live.is_empty() => {
                let c = *r.pick_of(&live);
                m.log.push_str(&format!("clone(c{c}) "));
                let h = match &m.contents[c].handles[0] {
                    Handle::Scoped(s) => Handle::Scoped(s.clone()),
                    Handle::Global(s) => Handle::Global(s.clone()),
                };
                m.contents[c].handles.push(h);
            }
            9 => {
                let g = r.below(m.mgrs.len());
                if r.chance(1, 3) {
                    m.log.push_str(&format!("clear(m{g}) "));
                    m.mgrs[g].handles.clear();
                } else if let Some(h) = m.mgrs[g].handles.first().cloned() {
                    m.mgrs[g].handles.push(h);
                }
            }
            10 => {
                // someone else's elements
                let c = r.below(m.containers.len());
                let first = r.chance(1, 2);
                m.log.push_str(&format!("foreign({c} {first}) "));
                let what = r.pick(&["b", "style", "link", "text", "comment", "copy"]);
                let name = env::request(format_args!("foreign {c} {} {what}", first as u8));
                let kids = &mut m.containers[c].1;
                if first {
                    kids.insert(0, Entry::Other(name));
                } else {
                    kids.push(Entry::Other(name));
                }
            }
            11 => {
                let c = r.below(m.containers.len());
                let at: Vec<usize> = m.containers[c].1.iter().enumerate().filter(|e| matches!(e.1, Entry::Style(_))).map(|e| e.0).collect();
                if r.chance(1, 3) && !at.is_empty() {
                    let k = *r.pick_of(&at);
                    m.log.push_str(&format!("steal({c} {k}) "));
                    env::request(format_args!("steal {c} {k}"));
                    if let Entry::Style(s) = m.containers[c].1.remove(k) {
                        m.contents[s].stolen = true;
                    }
                } else if r.chance(1, 2) && !at.is_empty() {
                    // someone reorders them
                    let k = *r.pick_of(&at);
                    let to = r.below(m.containers.len());
                    let first = r.chance(1, 2);
                    m.log.push_str(&format!("move({c} {k} {to} {first}) "));
                    env::request(format_args!("move {c} {k} {to} {}", first as u8));
                    let e = m.containers[c].1.remove(k);
                    let v = &mut m.containers[to].1;
                    v.insert(if first { 0 } else { v.len() }, e);
                    env::count("moved", 1);
                } else if ["div", "shadow"].contains(&&*m.containers[c].0) {
                    // the whole container leaves the document, or comes back
                    m.log.push_str(&format!("toggle({c}) "));
                    env::request(format_args!("toggle {c}"));
                }
            }
            _ => {}
        }
        m.sweep();
        let n = m.compare()?;
        env::count("elements_compared", n);
        env::count("states_compared", 1);
    }
    // everything goes
    for c in &mut m.contents {
        if let Some(h) = c.handles.first() {
            match h {
                Handle::Scoped(s) => s.unregister(),
                Handle::Global(s) => s.unregister(),
            }
            c.registered = false;
        }
        c.handles.clear();
    }
    for g in &mut m.mgrs {
        g.handles.clear();
    }
    m.log.push_str("end");
    m.sweep();
    m.compare()?;
    let left = env::all_styles();
    if !left.is_empty() {
        return Err(format!("styles are left over: {left:?}"));
    }
    Ok(())
}
