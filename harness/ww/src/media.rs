//! P27: a component that asks for a media query shows what it says now.
use crate::env;
use oracle::rng::Rng;
use std::collections::BTreeMap;
use trees::comps::{watch, WatchProps, Watches, WatchesProps};
use trees::world::elements;

const QUERIES: &[&str] = &["(min-width: 400px)", "(max-width: 400px)", "(min-width: 800px)", "(prefers-color-scheme: dark)", "print", "(max-width: 1200px)", "nonsense"];

#[derive(Clone, Debug)]
struct Env {
    width: usize,
    dark: bool,
    print: bool,
}

impl Env {
    fn says(&self, q: &str) -> bool {
        match q {
            "(min-width: 400px)" => self.width >= 400,
            "(max-width: 400px)" => self.width <= 400,
            "(min-width: 800px)" => self.width >= 800,
            "(max-width: 1200px)" => self.width <= 1200,
            "(prefers-color-scheme: dark)" => self.dark,
            "print" => self.print,
            _ => false,
        }
    }
    fn set(&self) {
        env::request(format_args!("media {} {} {}", self.width, self.dark as u8, self.print as u8));
    }
}

struct State {
    r: Rng,
    env: Env,
    list: Vec<WatchProps>,
    next: usize,
    app: usize,
    handle: Option<yew::AppHandle<Watches>>,
    log: String,
    rounds: usize,
    changed: usize,
}

impl State {
    fn add(&mut self) {
        self.next += 1;
        let query = self.r.pick(QUERIES).into();
        let prepared = if self.r.chance(1, 2) { Some(self.r.chance(1, 2)) } else { None };
        self.log.push_str(&format!("add({} {query}{}) ", self.next, if prepared.is_some() { " prepared" } else { "" }));
        self.list.push(WatchProps { n: self.next, query, prepared });
    }
    fn surround(&mut self) {
        match self.r.below(4) {
            0 | 1 => self.env.width = *self.r.pick_of(&[100, 399, 400, 401, 800, 1300]),
            2 => self.env.dark = !self.env.dark,
            _ => self.env.print = !self.env.print,
        }
        self.log.push_str(&format!("{:?} ", self.env));
        self.env.set();
        self.changed += 1;
    }
    fn check(&self) -> Result<(), String> {
        let html = env::request(format_args!("html {}", self.app));
        let els = elements(&html)?;
        let want: BTreeMap<String, (String, String)> = self.list.iter().map(|w| (w.n.to_string(), (w.query.to_string(), self.env.says(&w.query).to_string()))).collect();
        let got: BTreeMap<String, (String, String)> = els.into_iter().map(|(n, a)| (n, (a["data-query"].clone(), a["data-says"].clone()))).collect();
        if got != want {
            return Err(format!("shown: {got:?}\ninstead of: {want:?}"));
        }
        let l: usize = env::request("listeners").parse().unwrap();
        // (how many a component needs is its own affair)
        if l > 2 * self.list.len() {
            return Err(format!("{l} listeners are registered for {} media queries", self.list.len()));
        }
        env::count("queries_compared", self.list.len());
        env::count("states_compared", 1);
        Ok(())
    }
}

pub fn case(seed: u64, index: u64) -> crate::Step {
    let mut r = Rng::derive(seed, "MEDIA", index);
    let app = env::container_new("div");
    let rounds = r.range(4, 12);
    let e = Env { width: *r.pick_of(&[100, 400, 1000]), dark: r.chance(1, 2), print: r.chance(1, 6) };
    e.set();
    let mut s = State { r, env: e, list: vec![], next: 0, app, handle: None, log: String::new(), rounds, changed: 0 };
    Box::new(move |n| {
        let done = |s: &State, e: Option<String>| {
            env::case(&s.log, s.changed > 0 && s.next > 0);
            if let Some(e) = e {
                env::violation("media", &format!("{e}\nafter: {}", s.log));
            }
            false
        };
        if n == 0 {
            for _ in 0..s.r.range(0, 3) {
                s.add();
            }
            s.handle = Some(yew::Renderer::<Watches>::with_root_and_props(crate::element(s.app), WatchesProps { list: s.list.clone() }).render());
            if s.r.chance(1, 3) {
                // before anything is rendered
                s.surround();
            }
            return true;
        }
        if let Err(e) = s.check() {
            return done(&s, Some(e));
        }
        if n > s.rounds {
            if let Some(h) = s.handle.take() {
                s.log.push_str("unmount ");
                s.list.clear();
                h.destroy();
                return true;
            }
            s.surround();
            return done(&s, None);
        }
        for _ in 0..s.r.range(1, 3) {
            match s.r.below(8) {
                0..=2 => s.surround(),
                3..=4 if !s.list.is_empty() => {
                    let k = s.r.below(s.list.len());
                    let query = s.r.pick(QUERIES).into();
                    s.log.push_str(&format!("query({} {query}) ", s.list[k].n));
                    s.list[k].query = query;
                    watch(s.list.clone());
                    env::count("queries_changed", 1);
                }
                5 if !s.list.is_empty() => {
                    let k = s.r.below(s.list.len());
                    s.log.push_str(&format!("remove({}) ", s.list[k].n));
                    s.list.remove(k);
                    watch(s.list.clone());
                }
                6 => {
                    let l = &mut s.list;
                    s.r.shuffle(l);
                    watch(s.list.clone());
                }
                _ => {
                    s.add();
                    watch(s.list.clone());
                }
            }
        }
        true
    })
}
