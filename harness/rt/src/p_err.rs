//! P33: what an error says about the text it refuses.
use crate::conv;
use crate::p_parse::{bad_is_open, open_state, BAD};
use crate::util::guard;
use oracle::model::*;
use oracle::report::{Opts, Report};
use oracle::rng::Rng;
use std::error::Error as _;
use stylist::ast::Sheet;
use stylist::manager::StyleManager;
use stylist::{Error, GlobalStyle, Style};

/// text, where it goes wrong
const PROBES: &[(&str, usize)] = &[
    ("}", 0),
    ("a: b; c: d", 6),
    ("a: b;\n\n  c d;", 9),
    ("color: red;\n.a { b: c; }\n.b { d e; }\n.c { x: y; }", 25),
    (".a { b: c; }\n@media print { .x { y: z; } .q { r } }", 13),
    (".a { b: c; } } .b { c: d; }", 13),
    ("@media print { a: b; }\n@font-face { c: d; }", 23),
    (".a { b: c; }\n/* d */ .b { c: \"d; }", 21),
    ("@keyframes x { from { a: b; } }\n@keyframes y { from { a b; } }", 32),
    ("é: \"日本\"; ü", 14),
];

/// The place an error points at, after everything else it says was checked.
fn place(text: &str, e: &Error) -> Result<usize, String> {
    let Error::Parse { reason, source } = e else { return Err(format!("not a parse error: {e:?}")) };
    let shown = e.to_string();
    if reason.trim().is_empty() || !shown.contains(reason.as_str()) {
        return Err(format!("the error does not show its reason: {shown:?}"));
    }
    let Some(v) = source else { return Err("the error names no place".into()) };
    if e.source().map(|m| m.to_string()) != Some(v.to_string()) {
        return Err("the source of the error is not the one it holds".into());
    }
    let mut first = None;
    for (rest, _) in &v.errors {
        if !text.ends_with(rest.as_str()) {
            return Err(format!("the error points at text that is not there: {rest:?}"));
        }
        let at = text.len() - rest.len();
        first.get_or_insert(at);
        // the line it points into is shown, with its number
        let n = text[..at].matches('\n').count() + 1;
        let start = text[..at].rfind('\n').map(|m| m + 1).unwrap_or(0);
        let line = text[start..].split('\n').next().unwrap().trim_end();
        if !text[at..].is_empty() && !(shown.contains(&format!("line {n}")) && shown.contains(line)) {
            return Err(format!("the message does not show line {n} ({line:?})\n{shown}"));
        }
    }
    first.ok_or_else(|| "the error names no place".into())
}

fn same(a: &Error, b: &Error) -> bool {
    a == b && a.to_string() == b.to_string() && format!("{a:?}") == format!("{b:?}")
}

pub fn p33(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(8000, 200_000));
    let mut rep = Report::new(
        o,
        "sheets with a known fault (a syntax error between valid items, a cut inside an open construct, damaged characters) are parsed, and made into styles; the error must be a parse error that points at the first item that cannot be read: what stands before it is a valid sheet of exactly the items before the fault; it shows that line under its number, is the same whenever and however the text is refused; non-trivial: items stand before the fault; distinct by text",
    );
    rep.require("places", 3000);
    rep.require("exact_places", 1500);
    rep.require("creations_refused", 1000);
    let mgr = StyleManager::builder().prefix("e".into()).build().unwrap();
    let mut later: Vec<(String, Error)> = vec![];
    let mut one = |rep: &mut Report, sig: &str, text: &str, lo: usize, hi: usize, before: Option<Vec<Node>>, r: &mut Rng| {
        let e = match guard(|| text.parse::<Sheet>()) {
            Err(p) => return rep.violation(sig, format!("parser panicked: {p}\nsource:\n{text}")),
            // that is P02's business
            Ok(Ok(_)) => return rep.count("accepted", 1),
            Ok(Err(e)) => e,
        };
        rep.case(text, lo > 0);
        if text.len() < 200 {
            rep.sample(format!("{text}\n{e}"));
        }
        let ctx = |w: String| format!("{w}\nsource:\n{text}\nerror:\n{e}");
        let at = match place(text, &e) {
            Ok(p) => p,
            Err(w) => return rep.violation(sig, ctx(w)),
        };
        rep.count("places", 1);
        if lo == hi {
            rep.count("exact_places", 1);
        }
        if at < lo || at > hi {
            return rep.violation(sig, ctx(format!("the error points at byte {at}, the fault is at {lo}..={hi}")));
        }
        match guard(|| text[..at].parse::<Sheet>()) {
            Ok(Ok(s)) => {
                if let Some(b) = before {
                    let got = conv::tree(&s);
                    if at == lo && got != b {
                        return rep.violation(sig, ctx("what stands before the place is not what was written before the fault".into()));
                    }
                }
            }
            _ => return rep.violation(sig, ctx(format!("what stands before the place (byte {at}) is no valid sheet"))),
        }
        // the same text is refused in the same way, however it is used
        let again = match r.below(4) {
            0 => Style::new_with_manager(text, &mgr).err(),
            1 => GlobalStyle::new_with_manager(text.to_string(), &mgr).err(),
            2 => Style::create_with_manager("q", text, &mgr).err(),
            _ => {
                let t = text.to_string();
                std::thread::spawn(move || t.parse::<Sheet>().err()).join().ok().flatten()
            }
        };
        rep.count("creations_refused", 1);
        match again {
            Some(f) if same(&e, &f) => {}
            other => return rep.violation(sig, ctx(format!("refused otherwise the second time: {other:?}"))),
        }
        // and after other texts
        if r.chance(1, 10) {
            later.push((text.to_string(), e));
        } else if r.chance(1, 10) && !later.is_empty() {
            let k = r.below(later.len());
            let (t, e) = later.swap_remove(k);
            rep.count("refused_later", 1);
            match t.parse::<Sheet>() {
                Err(f) if same(&e, &f) => {}
                other => rep.violation(sig, format!("refused otherwise later on\nsource:\n{t}\nfirst:\n{e}\nlater:\n{}", other.map(|_| "accepted".into()).unwrap_or_else(|e| e.to_string()))),
            }
        }
    };
    let mut r = Rng::derive(seed, "P33p", 0);
    for (text, at) in PROBES {
        one(&mut rep, &format!("probe:{text}"), text, *at, *at, None, &mut r);
    }
    // where each known fault goes wrong on its own
    let own: Vec<usize> = BAD.iter().map(|b| b.parse::<Sheet>().err().and_then(|e| place(b, &e).ok()).unwrap_or(0)).collect();
    let prof = Profile { max_items: 5, ..Profile::full() };
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P33", i as u64);
        let mut m = gen_model(&mut r, &prof);
        let sig = format!("case:{i}");
        let t = r.below(3);
        match i % 3 {
            0 => {
                let k = r.below(m.len() + 1);
                let tail = m.split_off(k);
                let b = r.below(BAD.len());
                let bad = BAD[b];
                let mut s = print(&m, &mut r, t);
                s.push_str(&"\n".repeat(r.below(3)));
                let wrap = r.chance(1, 4) && !bad_is_open(bad) && !bad.starts_with('}') && bad.matches('{').count() == bad.matches('}').count();
                let pos = if wrap { s.len() } else { s.len() + own[b] };
                if wrap {
                    s.push_str(&format!("@media print {{ {bad} }}"));
                } else {
                    s.push_str(bad);
                }
                if !bad_is_open(bad) {
                    s.push('\n');
                    s.push_str(&print(&tail, &mut r, t));
                }
                let before = (wrap || own[b] == 0).then(|| expect_tree(&m));
                one(&mut rep, &sig, &s, pos, pos, before, &mut r);
            }
            1 => {
                // cut inside an item
                if m.is_empty() {
                    continue;
                }
                let k = r.below(m.len());
                m.truncate(k + 1);
                let last = m.pop().unwrap();
                let head = print(&m, &mut r, t);
                let item = print(std::slice::from_ref(&last), &mut r, 0);
                let item = item.trim_start();
                let cuts: Vec<usize> = open_state(item).into_iter().filter(|(_, d, st, cm)| *d > 0 || *st || *cm).map(|m| m.0).collect();
                if cuts.is_empty() {
                    continue;
                }
                let c = *r.pick_of(&cuts);
                let s = format!("{head}{}", &item[..c]);
                // declarations stand on their own
                let hi = if matches!(last, Item::Dangling(_)) { head.len() + c } else { head.len() };
                one(&mut rep, &sig, &s, head.len(), hi, Some(expect_tree(&m)), &mut r);
            }
            _ => {
                // wherever it is: nothing before the place is at fault
                let mut s: Vec<char> = print(&m, &mut r, t).chars().collect();
                for _ in 0..r.range(1, 3) {
                    if s.is_empty() {
                        break;
                    }
                    let k = r.below(s.len());
                    match r.below(3) {
                        0 => {
                            s.remove(k);
                        }
                        1 => s.insert(k, *r.pick_of(&['{', '}', ';', ':', '"', '\'', '@', '/', '$', '\\', '(', '<', '\n'])),
                        _ => {
                            let e = (k + r.range(1, 12)).min(s.len());
                            s.drain(k..e);
                        }
                    }
                }
                let s: String = s.into_iter().collect();
                one(&mut rep, &sig, &s, 0, s.len(), None, &mut r);
            }
        }
    }
    rep.finish()
}
