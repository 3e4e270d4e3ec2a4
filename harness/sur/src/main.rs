//! P35: generated invocations in generated surroundings ($GEN at build time), in three editions.
use oracle::css;
use oracle::report::{Opts, Report};
use std::panic::{catch_unwind, AssertUnwindSafe};
use surpage::Out;

struct Want {
    case: usize,
    /// what is special about the surroundings
    note: &'static str,
    /// the CSS, or what is said instead
    events: &'static [&'static str],
}
include!(concat!(env!("GEN"), ".want"));

fn main() {
    let o = Opts::parse();
    let mut rep = Report::new(o, "generated invocations of sheet!, css!, style! and global_style!, literal and inline, in generated surroundings, compiled in the editions 2018, 2021 and 2024 and run; non-trivial: something about the surroundings is special; distinct by what is special");
    rep.require("sheets_compared", 300);
    rep.require("without_prelude", 30);
    rep.require("ends_early", 10);
    let list = rep.opts.rest.clone();
    if let Some(i) = list.iter().position(|m| m == "--rejected") {
        for l in std::fs::read_to_string(&list[i + 1]).unwrap().lines() {
            let (k, m) = l.split_once('\t').unwrap();
            let w = WANT.iter().find(|w| w.case.to_string() == k);
            rep.violation(&format!("case:{k}"), format!("refused by the compiler: {m}\nsurroundings: {}\n{}", w.map_or("", |w| w.note), source(k)));
        }
    }
    for (edition, cases) in [("2018", e18::CASES), ("2021", e21::CASES), ("2024", e24::CASES)] {
        for (k, f) in cases {
            let w = WANT.iter().find(|w| w.case == *k).unwrap();
            if edition == "2018" && *k < 3 {
                rep.sample(source(&k.to_string()));
            }
            rep.case(&format!("{edition}: {}", w.note), !w.note.is_empty());
            if w.note.contains("no prelude") {
                rep.count("without_prelude", 1);
            }
            let mut out = Out::default();
            let end = catch_unwind(AssertUnwindSafe(|| f(&mut out)));
            let say = |m: String| format!("{m}\nedition {edition}, surroundings: {}\n{}", w.note, source(&k.to_string()));
            if end.is_err() {
                rep.violation(&format!("case:{k}"), say("panicked".into()));
                continue;
            }
            let got: Vec<String> = out.0.iter().map(|m| if m.starts_with('!') { m.clone() } else { css::read(m).map(|m| css::show(&m)).unwrap_or_else(|e| format!("{e}: {m}")) }).collect();
            rep.count("sheets_compared", got.iter().filter(|m| !m.starts_with('!')).count() as u64);
            rep.count("ends_early", got.iter().filter(|m| m.starts_with('!')).count() as u64);
            if got != w.events {
                rep.violation(&format!("case:{k}"), say(format!("the sheets differ\nexpected: {:#?}\ngot:      {got:#?}", w.events)));
            }
        }
    }
    std::process::exit(rep.finish());
}

fn source(k: &str) -> String {
    let all = std::fs::read_to_string(env!("GEN")).unwrap_or_default();
    all.split("// case ").find(|m| m.starts_with(&format!("{k}\n"))).unwrap_or("").to_string()
}
