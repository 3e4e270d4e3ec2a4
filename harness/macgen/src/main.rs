//! `macgen cases SEED LITERALS INLINES OUT SKIP` writes a Rust file of macro invocations with what they have to mean.
mod comps;
mod expr;
mod inline;
mod judge;
mod literal;
mod places;
mod reject;
mod surround;

use oracle::css;
use oracle::model::*;
use oracle::rng::Rng;

pub const VARIANTS: usize = 3;

/// Private-use characters stand for interpolations in models.
pub const HOLE: u32 = 0xE000;

/// An interpolated value: what it displays as for each variant, and an expression for it.
#[derive(Clone, Debug)]
pub struct Arg {
    pub name: String,
    pub vals: Vec<String>,
    pub setup: String,
    pub expr: String,
}

pub fn raw(s: &str) -> String {
    // raw strings cannot hold carriage returns
    if s.contains('\r') {
        return format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\r', "\\r"));
    }
    let mut h = String::from("#");
    while s.contains(&format!("\"{h}")) {
        h.push('#');
    }
    format!("r{h}\"{s}\"{h}")
}

/// Any Rust spelling of a string literal.
pub fn rust_str(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 2) {
        return raw(s);
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\r' => o.push_str("\\r"),
            '\n' => o.push_str(if r.chance(1, 2) { "\\n" } else { "\n" }),
            '\t' => o.push_str(if r.chance(1, 2) { "\\t" } else { "\t" }),
            c if c.is_ascii_alphanumeric() && r.chance(1, 40) => o.push_str(&format!("\\x{:02x}", c as u32)),
            c if (!c.is_ascii() && r.chance(1, 2)) || r.chance(1, 60) => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn fill(s: &str, args: &[Arg], k: usize) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match (c as u32).checked_sub(HOLE) {
            Some(i) if (i as usize) < args.len() => o.push_str(&args[i as usize].vals[k]),
            _ => o.push(c),
        }
    }
    o
}

/// Applies a change to every piece of text of a model that can hold an interpolation.
pub fn each_text(m: &mut [Item], f: &mut dyn FnMut(&mut String, Kind)) {
    fn body(b: &mut [Body], f: &mut dyn FnMut(&mut String, Kind)) {
        for m in b {
            match m {
                Body::Decl(d) => f(&mut d.val, Kind::Value),
                Body::At(a, b) => {
                    f(&mut a.cond, Kind::Cond);
                    body(b, f);
                }
            }
        }
    }
    for i in m {
        match i {
            Item::Dangling(d) => d.iter_mut().for_each(|d| f(&mut d.val, Kind::Value)),
            Item::Block(s, b) => {
                for s in s {
                    for p in &mut s.0 {
                        if let Piece::Lit(l) = p {
                            f(l, Kind::Sel);
                        }
                    }
                }
                body(b, f);
            }
            Item::At(a, c) => {
                f(&mut a.cond, Kind::Cond);
                each_text(c, f);
            }
            Item::Keyframes(_, fr) => fr.iter_mut().for_each(|x| x.1.iter_mut().for_each(|d| f(&mut d.val, Kind::Value))),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Value,
    Sel,
    Cond,
}

pub fn expected(m: &Model, class: Option<&str>) -> String {
    css::show(&expect_css(m, class))
}

/// Writes a case: a function, and its entry in the table.
pub struct Gen {
    pub fns: String,
    pub table: String,
    pub skip: Vec<String>,
}

impl Gen {
    #[allow(clippy::too_many_arguments)]
    pub fn case(&mut self, r: &mut Rng, id: &str, kind: &str, invoke: &str, args: &[Arg], uses: usize, texts: &[String], models: &[Model], note: &str) {
        if self.skip.iter().any(|m| m == id) {
            return;
        }
        let mac = ["sheet", "style", "global", "source"][if r.chance(1, 2) { 0 } else { r.below(4) }];
        let (path, wrap) = match mac {
            "sheet" => ("stylist::ast::sheet!", "Made::Sheet"),
            "style" => ("stylist::style!", "Made::Style"),
            "global" => ("stylist::global_style!", "Made::Global"),
            _ => ("stylist::css!", "Made::Source"),
        };
        let setup: String = args.iter().map(|a| a.setup.as_str()).collect();
        let (open, close) = *r.pick_of(&[("(", ")"), ("{", "}"), ("[", "]")]);
        self.fns.push_str(&format!("// case {id}\n#[allow(unused)]\nfn {id}(k: usize) -> Made {{\n{setup}    {wrap}({path} {open}{invoke}{close})\n}}\n"));
        let list = |v: Vec<String>| format!("&[{}]", v.iter().map(|m| raw(m)).collect::<Vec<_>>().join(", "));
        self.table.push_str(&format!(
            "    Case {{ id: \"{id}\", kind: \"{kind}\", make: {id}, args: {}, uses: {uses}, texts: {}, scoped: {}, global: {}, note: {} }},\n",
            args.len(),
            list(texts.to_vec()),
            list(models.iter().map(|m| expected(m, Some("C"))).collect()),
            list(models.iter().map(|m| expected(m, None)).collect()),
            raw(note),
        ));
    }
}

fn write(path: &str, text: &str) {
    if std::fs::read_to_string(path).ok().as_deref() != Some(text) {
        std::fs::write(path, text).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    match a[0].as_str() {
        // cases SEED LITERALS INLINES OUT SKIPPED-IDS
        "cases" => {
            let seed = num(1) as u64;
            let skip: Vec<&str> = a.get(5).map(|m| m.split(',').collect()).unwrap_or_default();
            let mut g = Gen { fns: String::new(), table: String::new(), skip: skip.iter().map(|m| m.to_string()).collect() };
            for i in 0..num(2) {
                literal::case(&mut g, &mut Rng::derive(seed, "LIT", i as u64), i);
            }
            for i in 0..num(3) {
                inline::case(&mut g, &mut Rng::derive(seed, "INL", i as u64), i);
            }
            write(&a[4], &format!("{}\npub const CASES: &[Case] = &[\n{}];\n", g.fns, g.table));
        }
        // places SEED N DIR
        "places" => places::main(num(1) as u64, num(2), &a[3]),
        // surround SEED N OUT SKIPPED-IDS
        "surround" => surround::main(num(1) as u64, num(2), &a[3], &a.get(4).map(|m| m.split(',').collect::<Vec<_>>()).unwrap_or_default()),
        // comps SEED N OUT SKIPPED-IDS
        "comps" => comps::main(num(1) as u64, num(2), &a[3], &a.get(4).map(|m| m.split(',').collect::<Vec<_>>()).unwrap_or_default()),
        // reject SEED N DIR
        "reject" => {
            std::panic::set_hook(Box::new(|_| {}));
            for (name, o) in [("bad", reject::untyped(num(1) as u64, num(2))), ("ty", reject::typed(num(1) as u64, num(2) / 4))] {
                write(&format!("{}/{name}.rs", a[3]), &o.src);
                write(&format!("{}/{name}.tsv", a[3]), &o.table);
            }
        }
        _ => judge::main(),
    }
}
