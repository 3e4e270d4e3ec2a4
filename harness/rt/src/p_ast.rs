//! P26: laws of the sheet's value semantics (equality, hash, clone, serialization, borrowing).
use crate::conv;
use crate::util::guard;
use oracle::model::*;
use oracle::report::{Opts, Report};
use oracle::rng::Rng;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use stylist::ast::*;

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

// ---- the same sheet in borrowed form, as the macros build it
fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}
fn ls(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
fn b_frags(f: &[StringFragment]) -> &'static [StringFragment] {
    leak(f.iter().map(|m| StringFragment { inner: ls(&m.inner).into() }).collect())
}
fn b_block(b: &Block) -> Block {
    Block {
        condition: leak(b.condition.iter().map(|s| Selector { fragments: b_frags(&s.fragments).into() }).collect()).into(),
        content: leak(b.content.iter().map(b_rbc).collect()).into(),
    }
}
fn b_rule(r: &Rule) -> Rule {
    Rule { condition: b_frags(&r.condition).into(), content: leak(r.content.iter().map(b_rbc).collect()).into() }
}
fn b_rbc(c: &RuleBlockContent) -> RuleBlockContent {
    match c {
        RuleBlockContent::StyleAttr(a) => RuleBlockContent::StyleAttr(StyleAttribute { key: ls(&a.key).into(), value: b_frags(&a.value).into() }),
        RuleBlockContent::Rule(r) => RuleBlockContent::Rule(Bow::Borrowed(Box::leak(Box::new(b_rule(r))))),
        RuleBlockContent::Block(r) => RuleBlockContent::Block(Bow::Borrowed(Box::leak(Box::new(b_block(r))))),
    }
}
fn borrowed(s: &Sheet) -> Sheet {
    leak(
        s.iter()
            .map(|m| match m {
                ScopeContent::Block(b) => ScopeContent::Block(b_block(b)),
                ScopeContent::Rule(b) => ScopeContent::Rule(b_rule(b)),
            })
            .collect::<Vec<_>>(),
    )
    .into()
}

/// One change somewhere in the model.
fn mutate(m: &mut Model, r: &mut Rng) -> Option<&'static str> {
    if m.is_empty() {
        m.push(Item::Dangling(vec![Decl { key: "a".into(), val: "b".into() }]));
        return Some("item added");
    }
    fn bump(s: &mut String, r: &mut Rng) {
        match r.below(3) {
            0 => s.push('z'),
            1 => s.insert(0, 'z'),
            _ => s.push_str(" zz"),
        }
    }
    fn decls(d: &mut Vec<Decl>, r: &mut Rng) -> Option<&'static str> {
        if d.is_empty() {
            d.push(Decl { key: "a".into(), val: "b".into() });
            return Some("declaration added");
        }
        let i = r.below(d.len());
        match r.below(5) {
            0 => {
                bump(&mut d[i].key, r);
                d[i].key = d[i].key.replace(' ', "-");
                Some("key")
            }
            1 | 2 => {
                bump(&mut d[i].val, r);
                Some("value")
            }
            3 => {
                let c = d[i].clone();
                d.insert(i, c);
                Some("declaration repeated")
            }
            _ => {
                d.remove(i);
                Some("declaration removed")
            }
        }
    }
    fn body(b: &mut Vec<Body>, r: &mut Rng) -> Option<&'static str> {
        if b.is_empty() || r.chance(1, 6) {
            b.push(Body::Decl(Decl { key: "a".into(), val: "b".into() }));
            return Some("declaration added");
        }
        let i = r.below(b.len());
        match &mut b[i] {
            Body::Decl(d) => {
                let mut v = vec![d.clone()];
                let w = decls(&mut v, r)?;
                if v.len() != 1 {
                    b.remove(i);
                    return Some("declaration removed");
                }
                b[i] = Body::Decl(v.remove(0));
                Some(w)
            }
            Body::At(a, v) => {
                if r.chance(1, 2) {
                    bump(&mut a.cond, r);
                    Some("nested condition")
                } else {
                    body(v, r)
                }
            }
        }
    }
    let i = r.below(m.len());
    if r.chance(1, 8) {
        m.remove(i);
        return Some("item removed");
    }
    if r.chance(1, 8) {
        let c = m[i].clone();
        m.push(c);
        return Some("item repeated");
    }
    match &mut m[i] {
        Item::Dangling(d) => decls(d, r),
        Item::Block(s, b) => match r.below(3) {
            0 => {
                let j = r.below(s.len());
                s[j].0.push(Piece::Lit(":hover".into()));
                Some("selector")
            }
            1 => {
                s.push(Sel::lit(".zz"));
                Some("selector added")
            }
            _ => body(b, r),
        },
        Item::At(a, c) => match r.below(3) {
            0 => {
                bump(&mut a.cond, r);
                Some("condition")
            }
            1 => {
                a.tag = if a.tag == "@media" { "@supports" } else { "@media" };
                Some("kind of condition")
            }
            _ => mutate(c, r),
        },
        Item::Keyframes(n, f) => {
            if f.is_empty() || r.chance(1, 2) {
                n.push('z');
                Some("keyframes name")
            } else {
                let j = r.below(f.len());
                if r.chance(1, 2) {
                    f[j].0.push("77%".into());
                    Some("frame selector")
                } else {
                    decls(&mut f[j].1, r)
                }
            }
        }
    }
}

pub fn p26(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(8000, 200_000));
    let mut rep = Report::new(o, "random sheets, built from owned pieces, from borrowed statics, parsed from text and received through JSON and bincode, are compared pairwise: equal ones must be ==, hash alike and emit alike, and a copy changed in one place must be != and emit or print differently; non-trivial: at least one declaration; distinct by sheet");
    rep.require("changed_copies", 1000);
    rep.require("borrowed_copies", 1000);
    rep.require("transported_copies", 1000);
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P26", i as u64);
        let m = gen_model(&mut r, &Profile { max_items: 4, ..Profile::full() });
        let mut split = Rng::derive(seed, "P26s", i as u64);
        let split2 = Rng::derive(seed, "P26s", i as u64);
        let frag = r.chance(1, 2);
        let mk = |rng: Option<&mut Rng>, m: &Model| conv::sheet(m, rng);
        let a = mk(frag.then_some(&mut split), &m);
        let sig = format!("case:{i}");
        rep.case(&format!("{a:?}"), count_decls(&m) > 0);
        if i < 2 {
            rep.sample(format!("{a:?}"));
        }
        let (css_s, css_g) = (a.to_style_str(Some("K")), a.to_style_str(None));
        let mut copies: Vec<(&str, Sheet)> = vec![("clone", a.clone())];
        let mut s2 = split2;
        copies.push(("built again", mk(frag.then_some(&mut s2), &m)));
        copies.push(("borrowed", borrowed(&a)));
        rep.count("borrowed_copies", 1);
        copies.push(("borrowed from elsewhere", borrowed(&a)));
        copies.push(("clone of borrowed", copies[2].1.clone()));
        rep.count("borrowed_copies", 1);
        for (name, c) in [
            ("json", guard(|| crate::util::from_json::<Sheet>(&serde_json::to_string(&a).unwrap()).map_err(|e| e.to_string()))),
            ("json of borrowed", guard(|| crate::util::from_json::<Sheet>(&serde_json::to_string(&copies[2].1).unwrap()).map_err(|e| e.to_string()))),
            ("bincode", guard(|| bincode::deserialize::<Sheet>(&bincode::serialize(&a).unwrap()).map_err(|e| e.to_string()))),
        ] {
            match c {
                Ok(Ok(c)) => {
                    rep.count("transported_copies", 1);
                    copies.push((name, c));
                }
                Ok(Err(e)) | Err(e) => rep.violation(&sig, format!("{name}: {e}\n{a:?}")),
            }
        }
        for (name, c) in &copies {
            let ok = *c == a && a == *c && h(c) == h(&a) && c.to_style_str(Some("K")) == css_s && c.to_style_str(None) == css_g && format!("{}", c.len()) == format!("{}", a.len());
            if !ok {
                rep.violation(&sig, format!("the copy \"{name}\" differs: == {}, hash {}, css {}\n{a:?}\n{c:?}", *c == a, h(c) == h(&a), c.to_style_str(None) == css_g));
            }
        }
        // and with each other
        for (j, (x, c)) in copies.iter().enumerate() {
            for (y, d) in &copies[..j] {
                rep.count("pairs", 1);
                if c != d || d != c || h(c) != h(d) {
                    rep.violation(&sig, format!("the copies \"{x}\" and \"{y}\" differ: == {}, {}, hash {}\n{c:?}\n{d:?}", c == d, d == c, h(c) == h(d)));
                }
            }
        }
        // a changed copy
        let mut m2 = m.clone();
        if let Some(what) = mutate(&mut m2, &mut r) {
            let unsplit = mk(None, &m);
            let b = mk(None, &m2);
            if m2 != m {
                rep.count("changed_copies", 1);
                if unsplit == b || b == unsplit || borrowed(&b) == unsplit {
                    rep.violation(&sig, format!("a sheet with another {what} is equal\n{unsplit:?}\n{b:?}"));
                }
                if serde_json::to_string(&unsplit).ok() == serde_json::to_string(&b).ok() {
                    rep.violation(&sig, format!("a sheet with another {what} is serialized alike"));
                }
                // hashing has to spread: identical hashes of different sheets are counted over the run
                if h(&unsplit) == h(&b) {
                    rep.count("hash_collisions", 1);
                }
            }
        }
    }
    rep.finish()
}
