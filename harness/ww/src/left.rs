//! P31: what an application takes while it is shown is given back when it is gone.
use crate::env;
use oracle::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::rc::Rc;
use stylist::manager::StyleManager;
use stylist::{css, GlobalStyle, Style};
use trees::comps::{forget, fresh, refresh, forget_watches, show, watch, Mgrs, NodeProps, Root, RootProps, Tree, WatchProps, Watches, WatchesProps};
use trees::world::*;

pub struct Counting;

struct Live(Cell<(isize, isize)>);
unsafe impl Sync for Live {}
static LIVE: Live = Live(Cell::new((0, 0)));

fn add(blocks: isize, bytes: isize) {
    let m = LIVE.0.get();
    LIVE.0.set((m.0 + blocks, m.1 + bytes));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-1, -(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(0, n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

const REPEAT: usize = 7;
const CONTAINERS: &[&str] = &["head", "body", "div", "shadow", "iframe"];

enum App {
    Trees { handle: Option<yew::AppHandle<Root>>, mgrs: Vec<StyleManager>, specs: Vec<(MgrSpec, usize)>, trees: Vec<Option<Rc<Tree>>> },
    Watches { handle: Option<yew::AppHandle<Watches>>, lists: Vec<(Vec<WatchProps>, usize)> },
    /// without components
    Styles { containers: Vec<usize>, stay: Option<StyleManager>, start: Rng, texts: Vec<Text> },
}

struct State {
    app: App,
    at: usize,
    log: String,
    nontrivial: bool,
    pass: usize,
    step: usize,
    marks: Vec<[isize; 5]>,
}

/// blocks and bytes, references to objects outside, nodes in documents, listeners of media queries
fn mark() -> [isize; 5] {
    let (blocks, bytes) = LIVE.0.get();
    let r = env::request("refs");
    let v: Vec<isize> = r.split(' ').map(|m| m.parse().unwrap()).collect();
    [blocks, bytes, v[0], v[1], v[2]]
}

fn styles(containers: &[usize], stay: &StyleManager, r: &mut Rng, texts: &[Text]) {
    let mut mgrs = vec![(stay.clone(), true)];
    let mut styles = vec![];
    let mut globals = vec![];
    for _ in 0..r.range(5, 30) {
        let k = r.below(mgrs.len());
        let (m, kept) = mgrs[k].clone();
        let t = &*texts[r.below(texts.len())].text;
        match r.below(8) {
            0 | 1 => styles.push((Style::new_with_manager(t, m).unwrap(), kept)),
            2 => globals.push((GlobalStyle::new_with_manager(t, m).unwrap(), kept)),
            3 => styles.push((Style::new_with_manager(css!("width: ${v}px;", v = fresh()), m).unwrap(), kept)),
            4 => {
                let c = containers[r.below(containers.len())];
                mgrs.push((StyleManager::builder().container(env::node(c)).append(r.chance(1, 2)).build().unwrap(), false));
            }
            5 if k > 0 => drop(mgrs.remove(k)),
            6 if !styles.is_empty() => {
                let k = r.below(styles.len());
                styles[k].0.unregister();
            }
            7 if !styles.is_empty() => {
                let k = r.below(styles.len());
                styles[k].0.unregister();
                styles.remove(k);
            }
            _ => {}
        }
    }
    styles.iter().filter(|s| s.1).for_each(|s| s.0.unregister());
    globals.iter().filter(|s| s.1).for_each(|s| s.0.unregister());
}

impl State {
    /// The next part of a repetition; false at its end.
    fn go(&mut self) -> bool {
        let k = self.step;
        self.step += 1;
        match &mut self.app {
            App::Trees { handle, mgrs, specs, trees } => {
                if k == 0 {
                    *mgrs = specs.iter().map(|(s, c)| StyleManager::builder().prefix(s.prefix.clone().into()).container(env::node(*c)).build().unwrap()).collect();
                    let start = NodeProps { tree: refresh(trees[0].as_ref().unwrap()), mgrs: Mgrs(Rc::new(mgrs.clone())) };
                    *handle = Some(yew::Renderer::<Root>::with_root_and_props(crate::element(self.at), RootProps { start }).render());
                } else if k < trees.len() {
                    show(trees[k].as_ref().map(refresh));
                    env::count("renders", 1);
                } else if let Some(h) = handle.take() {
                    h.destroy();
                } else {
                    forget();
                    mgrs.clear();
                    return false;
                }
            }
            App::Watches { handle, lists } => {
                if k == 0 {
                    *handle = Some(yew::Renderer::<Watches>::with_root_and_props(crate::element(self.at), WatchesProps { list: lists[0].0.clone() }).render());
                } else if k < lists.len() {
                    env::request(format_args!("media {} 0 0", lists[k].1));
                    watch(lists[k].0.clone());
                    env::count("renders", 1);
                } else if let Some(h) = handle.take() {
                    h.destroy();
                } else {
                    forget_watches();
                    return false;
                }
            }
            App::Styles { containers, stay, start, texts } => {
                let m = stay.get_or_insert_with(|| StyleManager::builder().prefix("stay".into()).build().unwrap()).clone();
                styles(containers, &m, &mut start.clone(), texts);
                env::count("histories", 1);
                return k == 0;
            }
        }
        true
    }
    fn step(&mut self) -> bool {
        if self.go() {
            return true;
        }
        self.step = 0;
        self.pass += 1;
        self.marks.push(mark());
        if self.pass < REPEAT {
            return true;
        }
        env::case(&self.log, self.nontrivial);
        env::count("repetitions_measured", REPEAT);
        let names = ["allocated blocks", "allocated bytes", "references to objects of the browser", "nodes in the document", "listeners of media queries"];
        for (i, n) in names.iter().enumerate() {
            let v: Vec<isize> = self.marks.iter().map(|m| m[i]).collect();
            // caches fill up at first; what is lost is lost every time
            if v[2..].windows(2).all(|w| w[1] > w[0]) {
                env::violation("left", &format!("repeating it, more {n} are left every time: {v:?}\n{}", self.log));
            }
        }
        let last = self.marks[REPEAT - 1];
        if last[4] != 0 {
            env::violation("listeners", &format!("{} listeners of media queries are left\n{}", last[4], self.log));
        }
        env::count("references_seen", last[2] as usize);
        false
    }
}

pub fn case(seed: u64, index: u64) -> crate::Step {
    let mut r = Rng::derive(seed, "LEFT", index);
    let mut log = String::new();
    let mut nontrivial = true;
    env::container_new("head");
    let mut containers = vec![0];
    for _ in 0..2 {
        containers.push(env::container_new(r.pick(CONTAINERS)));
    }
    let at = env::container_new("div");
    let app = match index % 4 {
        0 | 1 => {
            let texts = texts(&mut r, 4);
            let mut w = world(&mut r, &texts, "P28");
            let mut next = 10000;
            let mut tree = w.trees.pop().unwrap();
            let mgrs = w.mgrs.len();
            let mut trees = vec![Some(tree.clone())];
            log = w.shape.clone();
            nontrivial = w.leaves.len() > 0;
            for _ in 0..r.range(0, 4) {
                if r.chance(1, 8) {
                    trees.push(None);
                    continue;
                }
                tree = mutate(&tree, &mut r, &texts, mgrs, true, &mut next);
                let mut w = World { mgrs: vec![], trees: vec![], leaves: vec![], medias: vec![], providers: vec![], shape: String::new() };
                collect(&tree, None, &mut w);
                log.push_str(" | ");
                log.push_str(&w.shape);
                trees.push(Some(tree.clone()));
            }
            let specs = w.mgrs.into_iter().map(|s| (s, *r.pick_of(&containers))).collect();
            App::Trees { handle: None, mgrs: vec![], specs, trees }
        }
        2 => {
            let mut list: Vec<WatchProps> = vec![];
            let mut lists = vec![];
            let mut n = 0;
            for _ in 0..r.range(2, 6) {
                for _ in 0..r.range(1, 3) {
                    match r.below(4) {
                        0 if !list.is_empty() => drop(list.remove(r.below(list.len()))),
                        1 if !list.is_empty() => {
                            let k = r.below(list.len());
                            list[k].query = r.pick(&["print", "(min-width: 300px)"]).into();
                        }
                        _ => {
                            n += 1;
                            list.push(WatchProps { n, query: r.pick(&["(min-width: 500px)", "(min-width: 800px)", "print"]).into(), prepared: *r.pick_of(&[None, Some(false), Some(true)]) });
                        }
                    }
                }
                let width = *r.pick_of(&[100, 400, 600, 900]);
                log.push_str(&format!("{width}: {:?} | ", list.iter().map(|w| (w.n, &*w.query, w.prepared)).collect::<Vec<_>>()));
                lists.push((list.clone(), width));
            }
            App::Watches { handle: None, lists }
        }
        _ => {
            let texts = texts(&mut r, 4);
            log.push_str(&format!("history {:016x}", r.clone().u64()));
            App::Styles { containers, stay: None, start: r.clone(), texts }
        }
    };
    let mut s = State { app, at, log, nontrivial, pass: 0, step: 0, marks: Vec::with_capacity(REPEAT) };
    Box::new(move |_| s.step())
}
