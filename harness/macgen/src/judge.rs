//! `macgen P18 --tier … RESULTS…`: judges what the compiler said about each invocation.
use oracle::report::{Opts, Report};

pub fn main() {
    let o = Opts::parse();
    let files = o.rest.clone();
    let mut rep = Report::new(o, "invocations with one thing wrong with them (and the same ones without it) go through the real compiler, its diagnostics are mapped to the invocation they point into; non-trivial: has to be refused; distinct by invocation");
    rep.require("refused", 150);
    rep.require("taken", 80);
    rep.require("kinds_refused", 25);
    let mut kinds = std::collections::BTreeSet::new();
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap();
        for l in t.lines() {
            // id, kind, expected, what the compiler said (or nothing), invocation
            let c: Vec<&str> = l.splitn(5, '\t').collect();
            rep.case(c[4], c[2] == "refuse");
            match (c[2], c[3].is_empty()) {
                ("refuse", false) => {
                    rep.count("refused", 1);
                    rep.count(&format!("refused: {}", c[1]), 1);
                    if kinds.insert(c[1].to_string()) {
                        rep.count("kinds_refused", 1);
                        if kinds.len() < 6 {
                            rep.sample(format!("{}: {} => {}", c[1], c[4], c[3]));
                        }
                    }
                }
                ("take", true) => rep.count("taken", 1),
                ("refuse", true) => rep.violation(&format!("{}:{}", c[1], c[0]), format!("{}: the invocation compiles\n{}", c[1], c[4])),
                _ => rep.violation(&format!("{}:{}", c[1], c[0]), format!("{}: the invocation does not compile: {}\n{}", c[1], c[3], c[4])),
            }
        }
    }
    std::process::exit(rep.finish());
}
