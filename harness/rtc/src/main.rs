//! `rtc MODE N SEED TIER` prints `id<TAB>who` for every style made in a build with counted ids.
//! plain: threads; hydrated, small: after loading what another process rendered; ssr: server side.
use std::sync::Arc;
use stylist::ast::{Block, ScopeContent, Sheet, StyleAttribute};
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};

fn sheet(i: usize) -> Sheet {
    vec![ScopeContent::Block(Block {
        condition: vec![].into(),
        content: vec![StyleAttribute { key: "width".into(), value: vec![format!("{i}px").into()].into() }.into()].into(),
    })]
    .into()
}

struct R(u64);
impl R {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
}

const PREFIXES: &[&str] = &["stylist", "card", "stylist-style", "style-7", "é", "card-", "x--", "_", "style--style-9", "Card", "my-style-x", "a-global-b", "x-style-3-style-4", "style", "restyle", "a-style"];

fn make(m: &StyleManager, mode: &str, who: &str, from: usize, n: usize, seed: u64) -> Vec<(String, String)> {
    let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 77);
    let mut out = vec![];
    for i in from..from + n {
        let p = PREFIXES[r.below(PREFIXES.len())];
        let g = r.below(4) == 0;
        let id = if g {
            let s = GlobalStyle::new_with_manager(sheet(i), m).unwrap();
            if mode == "plain" {
                s.unregister();
            }
            s.id().to_string()
        } else {
            let s = Style::create_with_manager(p, sheet(i), m).unwrap();
            if mode == "plain" {
                s.unregister();
            }
            s.get_class_name().to_string()
        };
        out.push((id, format!("{who}/{i}\t{}\t{}", if g { "g" } else { "s" }, if g { m.prefix().to_string() } else { p.to_string() })));
        if r.below(64) == 0 {
            std::thread::yield_now();
        }
    }
    out
}

fn ids(d: &StyleData) -> Vec<String> {
    let mut s = String::new();
    d.write_static_markup(&mut s).unwrap();
    s.split("<style data-style=\"").skip(1).map(|m| m.split('"').next().unwrap().to_string()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, n, seed) = (a[1].clone(), a[2].parse::<usize>().unwrap(), a[3].parse::<u64>().unwrap());
    if mode == "json" {
        // what a server would send
        let (w, r) = render_static();
        let m = StyleManager::builder().writer(w).build().unwrap();
        make(&m, "ssr", "server", 0, n, seed);
        print!("{}", serde_json::to_string(&r.read_style_data()).unwrap());
        return;
    }
    if mode == "small" || mode == "smalljson" {
        // a page with few styles of one prefix and kind, and as many more made by the client
        let prefix = PREFIXES[seed as usize % PREFIXES.len()];
        let global = |i: usize| (seed as usize / PREFIXES.len()) % 3 == 0 || (seed as usize / PREFIXES.len() % 3 == 1 && i % 2 == 0);
        let make = |m: &StyleManager, who: &str, from: usize, n: usize| {
            (from..from + n)
                .map(|i| {
                    let id = match global(i) {
                        true => GlobalStyle::new_with_manager(sheet(i), m).unwrap().id().to_string(),
                        false => Style::create_with_manager(prefix, sheet(i), m).unwrap().get_class_name().to_string(),
                    };
                    format!("{id}\t{who}/{i}\t{}\t{prefix}\n", if global(i) { "g" } else { "s" })
                })
                .collect::<String>()
        };
        if mode == "smalljson" {
            let (w, r) = render_static();
            let m = StyleManager::builder().prefix(prefix.into()).writer(w).build().unwrap();
            make(&m, "server", 0, n);
            print!("{}", serde_json::to_string(&r.read_style_data()).unwrap());
            return;
        }
        let exe = std::env::current_exe().unwrap();
        let o = std::process::Command::new(exe).args(["smalljson", &a[2], &a[3]]).output().unwrap();
        let d: StyleData = from_json(std::str::from_utf8(&o.stdout).unwrap()).unwrap();
        for id in ids(&d) {
            println!("{id}\thydrated");
        }
        let m = StyleManager::builder().prefix(prefix.into()).build().unwrap();
        m.load_style_data(&d);
        print!("{}END\n", make(&m, "page", 1000, 2 * n + 5));
        return;
    }
    let mut out: Vec<(String, String)> = vec![];
    let mut threads = vec![];
    let data: Option<Arc<StyleData>> = (mode == "hydrated").then(|| {
        let exe = std::env::current_exe().unwrap();
        let o = std::process::Command::new(exe).args(["json", "60", &a[3], "quick"]).output().unwrap();
        Arc::new(from_json(std::str::from_utf8(&o.stdout).unwrap()).unwrap())
    });
    if let Some(d) = &data {
        out.extend(ids(d).into_iter().map(|id| (id, "hydrated".into())));
        // a page loads its data before anything is rendered
        let m = StyleManager::builder().build().unwrap();
        m.load_style_data(d);
        out.extend(make(&m, &mode, "page", 100_000, n, seed));
        // ... and another one, later on, with the same data
        let m = StyleManager::builder().build().unwrap();
        m.load_style_data(d);
        out.extend(make(&m, &mode, "page2", 300_000, n, seed));
    }
    for t in 0..8u64 {
        let mode = mode.clone();
        threads.push(std::thread::spawn(move || {
            let (w, r) = render_static();
            let mut b = StyleManager::builder().prefix(PREFIXES[t as usize % PREFIXES.len()].into());
            if mode == "ssr" {
                b = b.writer(w);
            }
            let m = b.build().unwrap();
            let n = if mode == "ssr" { n / 10 } else { n };
            let v = make(&m, &mode, &format!("thread{t}"), 0, n, seed + t);
            if mode == "ssr" {
                // the same ids as captured
                assert_eq!(ids(&r.read_style_data()), v.iter().map(|m| m.0.clone()).collect::<Vec<_>>());
            }
            v
        }));
    }
    for t in threads {
        out.extend(t.join().unwrap());
    }
    let mut s = String::new();
    for (id, who) in out {
        s.push_str(&format!("{id}\t{who}\n"));
    }
    print!("{s}END\n");
}

/// JSON of any depth (serde_json gives up at 128 levels by default).
fn from_json<T: serde::de::DeserializeOwned>(s: &str) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    T::deserialize(&mut d)
}
