//! Invocations in surroundings: what is in scope, what they are written in, and what the expressions do.
use crate::*;

/// An expression and what it displays each time.
#[derive(Clone)]
struct Ex(String, Vec<String>);

fn ex(e: &str, v: &[&str]) -> Ex {
    Ex(e.into(), v.iter().map(|m| m.to_string()).collect())
}

/// `M` is the invocation, made known to `out`; `L` are local variables.
struct Ctx {
    name: &'static str,
    code: &'static str,
    special: Vec<Ex>,
    /// how often a sheet is made
    times: usize,
    /// what is said at the end
    end: Option<&'static str>,
    /// the special expression has to be used
    must: bool,
    /// only a sheet can be made here
    sheet: bool,
}

fn contexts() -> Vec<Ctx> {
    let c = |name, code, special: &[Ex], times| Ctx { name, code, special: special.to_vec(), times, end: None, must: false, sheet: false };
    let mut v = vec![
        c("", "pub fn run(out: &mut ::surpage::Out) {\n L M;\n}", &[], 1),
        c("generic", "fn go<T: ::std::fmt::Display>(t: T, out: &mut ::surpage::Out) {\n L M;\n}\npub fn run(out: &mut ::surpage::Out) {\n go(5u8, out);\n go(\"gen\", out);\n}", &[ex("t", &["5", "gen"]), ex("&&t", &["5", "gen"])], 2),
        c("generic impl Trait", "fn go(t: impl ::std::fmt::Display, out: &mut ::surpage::Out) {\n L M;\n}\npub fn run(out: &mut ::surpage::Out) {\n go(6.5, out);\n go('q', out);\n go(::std::format_args!(\"{}-{}\", 1, 2), out);\n}", &[ex("t", &["6.5", "q", "1-2"]), ex("{ let u = &t; u }", &["6.5", "q", "1-2"])], 3),
        c("const generic", "fn go<const N: usize>(out: &mut ::surpage::Out) {\n L M;\n}\npub fn run(out: &mut ::surpage::Out) {\n go::<3>(out);\n go::<7>(out);\n}", &[ex("N", &["3", "7"]), ex("N + 1", &["4", "8"]), ex("[0u8; N].len()", &["3", "7"])], 2),
        c("lifetimes", "fn go<'a, T>(t: &'a T, out: &mut ::surpage::Out) where T: 'a + ::std::fmt::Display + ?::std::marker::Sized {\n L M;\n}\npub fn run(out: &mut ::surpage::Out) {\n go(\"str\", out);\n go(&9i32, out);\n}", &[ex("t", &["str", "9"]), ex("&*&t", &["str", "9"])], 2),
        c("method", "struct Me { x: u32, r#type: &'static str }\nimpl Me {\n const Z: u32 = 4;\n fn of(&self) -> u32 { self.x * 2 }\n fn go(&self, out: &mut ::surpage::Out) {\n L M;\n }\n}\npub fn run(out: &mut ::surpage::Out) {\n Me { x: 1, r#type: \"t1\" }.go(out);\n Me { x: 2, r#type: \"t2\" }.go(out);\n}", &[ex("self.x", &["1", "2"]), ex("Self::Z", &["4", "4"]), ex("self.of()", &["2", "4"]), ex("self.r#type", &["t1", "t2"]), ex("Self::of(self) + self.x", &["3", "6"])], 2),
        c("trait", "trait Tr {\n const C: u32;\n fn name(&self) -> &'static str;\n fn go(&self, out: &mut ::surpage::Out) {\n L M;\n }\n}\nimpl Tr for u8 { const C: u32 = 11; fn name(&self) -> &'static str { \"u\" } }\nimpl Tr for () { const C: u32 = 12; fn name(&self) -> &'static str { \"v\" } }\npub fn run(out: &mut ::surpage::Out) {\n 1u8.go(out);\n ().go(out);\n}", &[ex("Self::C", &["11", "12"]), ex("<Self as Tr>::C + 1", &["12", "13"]), ex("self.name()", &["u", "v"])], 2),
        c("loop", "pub fn run(out: &mut ::surpage::Out) {\n for i in 0..4 {\n L M;\n }\n}", &[ex("i", &["0", "1", "2", "3"]), ex("if i % 2 == 0 { \"even\" } else { \"odd\" }", &["even", "odd", "even", "odd"])], 4),
        c("recursion", "fn go(n: u32, out: &mut ::surpage::Out) {\n if n > 0 { go(n - 1, out); }\n L M;\n}\npub fn run(out: &mut ::surpage::Out) {\n go(2, out);\n}", &[ex("n", &["0", "1", "2"])], 3),
        c("closure", "pub fn run(out: &mut ::surpage::Out) {\n let mut f = |x: u32| {\n L M;\n };\n f(1);\n f(2);\n}", &[ex("x", &["1", "2"]), ex("(|y: u32| y + x)(1)", &["2", "3"])], 2),
        c("moving closure", "pub fn run(out: &mut ::surpage::Out) {\n let own1 = ::std::format!(\"moved\");\n let f = move || {\n L M;\n drop_it(own1);\n };\n f();\n}\nfn drop_it<T>(_: T) {}", &[ex("own1", &["moved"]), ex("own1.as_str()", &["moved"]), ex("&own1[1..]", &["oved"])], 1),
        c("nested function", "fn outer<T>(_t: T, out: &mut ::surpage::Out) {\n const DEEP: u8 = 77;\n static STILL: &str = \"still\";\n fn inner(a: u32, out: &mut ::surpage::Out) {\n L M;\n }\n inner(1, out);\n inner(2, out);\n}\npub fn run(out: &mut ::surpage::Out) { outer(\"x\", out); }", &[ex("a", &["1", "2"]), ex("DEEP", &["77", "77"]), ex("STILL", &["still", "still"])], 2),
        c("unsafe", "pub unsafe fn go(p: *const u32, out: &mut ::surpage::Out) {\n unsafe {\n L M;\n }\n}\npub fn run(out: &mut ::surpage::Out) {\n let x = 31; unsafe { go(&x, out) }\n}", &[ex("*p", &["31"])], 1),
        c("match", "pub fn run(out: &mut ::surpage::Out) {\n let o = ::std::option::Option::Some(21);\n match o {\n ::std::option::Option::Some(m) if m > 20 => { L M },\n _ => (),\n }\n}", &[ex("m", &["21"]), ex("match o { ::std::option::Option::Some(m) => m + 1, _ => 0 }", &["22"])], 1),
        c("macro taking an expression", "macro_rules! mk { ($e:expr, $out:ident) => { { let v = \"of the macro\"; let _ = v; ::surpage::Out::made($out, ::surpage::Made::Sheet(::stylist::ast::sheet!(\"--v0: ${a};\", a = $e))) } } }\npub fn run(out: &mut ::surpage::Out) {\n let v = 8; mk!(v + 1, out);\n L M;\n}", &[], 1),
        c("macro taking tokens", "macro_rules! mk { ($out:ident, $($t:tt)*) => { { let v = \"of the macro\"; let _ = v; $($t)*; } } }\npub fn run(out: &mut ::surpage::Out) {\n let v = 8; let x = 1;\n mk!(out, L M);\n}", &[ex("v", &["8"]), ex("v + x", &["9"])], 1),
        c("macro taking a block", "macro_rules! mk { ($b:block) => { { let v = \"of the macro\"; let _ = v; $b } } }\npub fn run(out: &mut ::surpage::Out) {\n let v = 8;\n mk!({ L M; });\n}", &[ex("v", &["8"]), ex("v * 2", &["16"])], 1),
        c("macro making items", "macro_rules! mk { ($name:ident, $v:ident) => { fn $name($v: u32, out: &mut ::surpage::Out) { L M; } } }\nmk!(made, v);\npub fn run(out: &mut ::surpage::Out) { made(3, out); }", &[], 1),
        c("in a const block of code", "pub fn run(out: &mut ::surpage::Out) {\n const FIXED: u32 = { const A: u32 = 3; A * 5 };\n L M;\n}", &[ex("FIXED", &["15"]), ex("FIXED + { const FIXED: u32 = 1; FIXED }", &["16"])], 1),
        c("thread", "pub fn run(out: &mut ::surpage::Out) {\n let word = ::std::format!(\"word\");\n ::std::thread::scope(|s| { s.spawn(|| {\n L M;\n }); });\n}", &[ex("word", &["word"]), ex("&word", &["word"])], 1),
        c("places", "pub fn run(out: &mut ::surpage::Out) {\n let mut cell = ::std::cell::RefCell::new([1, 2]);\n let (mut a, b) = (5, (6, \"seven\"));\n L M;\n}", &[ex("cell.borrow()[1]", &["2"]), ex("b.1", &["seven"]), ex("b.0 + a", &["11"]), ex("&mut a", &["5"])], 1),
        c("attributes", "#[inline(never)]\n#[doc = \"with a doc\"]\npub fn run(out: &mut ::surpage::Out) {\n #[allow(unused_variables)]\n let q = 5;\n #[cfg(all())]\n { L M; }\n #[cfg(any())]\n { ::std::unreachable!() }\n}", &[ex("q", &["5"])], 1),
    ];
    let early = |name, code, special: &[Ex], times, end| Ctx { name, code, special: special.to_vec(), times, end: Some(end), must: true, sheet: false };
    v.push(early("?", "fn go(r: ::std::result::Result<u32, &'static str>, out: &mut ::surpage::Out) -> ::std::result::Result<(), &'static str> {\n L M;\n ::std::result::Result::Ok(())\n}\npub fn run(out: &mut ::surpage::Out) {\n let _ = go(::std::result::Result::Ok(4), out);\n if let ::std::result::Result::Err(m) = go(::std::result::Result::Err(\"!refused\"), out) { out.say(m) }\n}", &[ex("r?", &["4"]), ex("{ let m = r?; m + 1 }", &["5"])], 1, "!refused"));
    v.push(early("? on an option", "fn go(o: ::std::option::Option<u32>, out: &mut ::surpage::Out) -> ::std::option::Option<()> {\n L M;\n ::std::option::Option::Some(())\n}\npub fn run(out: &mut ::surpage::Out) {\n let _ = go(::std::option::Option::Some(4), out);\n if go(::std::option::Option::None, out).is_none() { out.say(\"!none\") }\n}", &[ex("o?", &["4"])], 1, "!none"));
    v.push(early("return", "fn go(o: u32, out: &mut ::surpage::Out) -> bool {\n L M;\n true\n}\npub fn run(out: &mut ::surpage::Out) {\n go(1, out);\n if !go(0, out) { out.say(\"!returned\") }\n}", &[ex("if o == 0 { return false } else { o }", &["1"]), ex("match o { 0 => return false, m => m * 3 }", &["3"])], 1, "!returned"));
    v.push(early("break", "pub fn run(out: &mut ::surpage::Out) {\n for i in 0..9 {\n L M;\n }\n out.say(\"!broken\");\n}", &[ex("if i == 2 { break } else { i }", &["0", "1"])], 2, "!broken"));
    v.push(early("break to a label", "pub fn run(out: &mut ::surpage::Out) {\n 'outer: for i in 3..9 {\n loop {\n L M;\n break;\n }\n }\n out.say(\"!left\");\n}", &[ex("if i == 5 { break 'outer } else { i }", &["3", "4"]), ex("match i { 3 => \"three\", 4 => \"four\", _ => break 'outer }", &["three", "four"])], 2, "!left"));
    v.push(early("continue", "pub fn run(out: &mut ::surpage::Out) {\n for i in 0..3 {\n L M;\n }\n out.say(\"!done\");\n}", &[ex("if i == 1 { continue } else { i }", &["0", "2"])], 2, "!done"));
    let wait = |name, code, special: &[Ex], times| Ctx { name, code, special: special.to_vec(), times, end: None, must: true, sheet: true };
    v.push(wait("async", "async fn go<F: ::std::future::Future<Output = u32>>(fut: F, out: &mut ::surpage::Out) {\n L M;\n}\npub fn run(out: &mut ::surpage::Out) {\n ::surpage::run(go(::surpage::later(6), out));\n}", &[ex("fut.await", &["6"]), ex("fut.await + ::surpage::later(1).await", &["7"])], 1));
    v.push(wait("async block", "pub fn run(out: &mut ::surpage::Out) {\n let fut = ::surpage::later(\"then\");\n ::surpage::run(async {\n L M;\n });\n}", &[ex("fut.await", &["then"]), ex("{ ::surpage::later(()).await; \"after\" }", &["after"])], 1));
    v.push(wait("once", "pub fn run(out: &mut ::surpage::Out) {\n static ONCE: ::std::sync::OnceLock<u32> = ::std::sync::OnceLock::new();\n for _ in 0..2 {\n L M;\n }\n}", &[ex("ONCE.get_or_init(|| 17)", &["17", "17"])], 2));
    v
}

/// Names generated code could use for something itself.
const TYPES: &[&str] = &[
    "Sheet", "From", "Into", "Cow", "Vec", "String", "Lazy", "StringFragment", "Selector", "Block", "Rule", "ScopeContent", "StyleAttribute", "RuleBlockContent",
    "Option", "Box", "Arc", "Rc", "Display", "ToString", "StyleSource", "Style", "GlobalStyle", "Default", "Clone", "Result", "Error", "Iterator", "Some", "Ok", "Content", "Contents", "Items", "Fragment", "Attribute", "Value", "Kind", "Output", "Item",
];
const LOCALS: &[&str] = &["sheet", "s", "items", "contents", "content", "inner", "key", "value", "condition", "css", "style", "manager", "lazy", "fragments", "x0", "args", "f", "out2", "std", "core", "stylist"];
const FREE: &[(&str, &str)] = &[
    ("{ let a = 1; let b = a + 1; b * 3 }", "6"),
    ("if true { \"y\" } else { \"n\" }", "y"),
    ("match 3 { 1 => \"one\", _ => \"many\" }", "many"),
    ("(|| 5)()", "5"),
    ("::std::format!(\"tmp\").as_str()", "tmp"),
    ("&::std::format!(\"tmq\")", "tmq"),
    ("&&&\"refs\"", "refs"),
    ("::std::format!(\"{}{}\", 1, 'f')", "1f"),
    ("::std::format_args!(\"{}-{}\", \"a\", 2)", "a-2"),
    ("unsafe { ::std::str::from_utf8_unchecked(b\"uns\") }", "uns"),
    ("loop { break 9 }", "9"),
    ("1 < 2", "true"),
    ("::std::concat!(\"c\", 4)", "c4"),
    ("::std::stringify!(word)", "word"),
    ("::stylist::ast::sheet!(\"color: red; .in { x: y; }\").len()", "2"),
    ("{ let q = ::stylist::ast::sheet!(color: ${3}; .a { b: ${4}; }); q.len() }", "2"),
    ("\"lit\"", "lit"),
    ("-3i8", "-3"),
    ("[1, 2][1]", "2"),
    ("(1, \"second\").1", "second"),
    ("{ fn from() -> u8 { 88 } from() }", "88"),
    ("{ struct Sheet; impl Sheet { const W: u8 = 89; } Sheet::W }", "89"),
    ("{ use ::std::cmp::max as into; into(1, 7) }", "7"),
    ("::std::boxed::Box::new(\"boxed\")", "boxed"),
    ("{ let mut n = 1; n += 1; n }", "2"),
    ("::std::mem::size_of::<[u8; 5]>()", "5"),
    ("0x1f_u64 as u8", "31"),
    ("!false", "true"),
];

/// Statements around interpolations (`\u{e000}` …), the same text for literal and inline macros.
fn statements(r: &mut Rng, n: usize) -> Vec<(String, Item)> {
    let mut out = vec![];
    let mut i = 0;
    let hole = |i: usize| char::from_u32(HOLE + i as u32).unwrap().to_string();
    let decl = |key: &str, val: &str| Decl { key: key.into(), val: val.into() };
    let mut j = 0;
    while i < n || out.is_empty() {
        let h = |i: &mut usize| if *i < n { *i += 1; hole(*i - 1) } else { "none".into() };
        j += 1;
        // bare declarations do not follow a block
        let first = out.iter().all(|m: &(String, Item)| matches!(m.1, Item::Dangling(_)));
        match r.below(if first { 6 } else { 4 }) {
            0 => {
                let (a, b) = (h(&mut i), h(&mut i));
                out.push((format!(".b{j} {{ --x: {a}; y: f({b}); }}"), Item::Block(vec![Sel::lit(&format!(".b{j}"))], vec![Body::Decl(decl("--x", &a)), Body::Decl(decl("y", &format!("f({b})")))])));
            }
            1 => {
                let a = h(&mut i);
                out.push((format!("&:hover, .c{j} {{ @media print {{ --z: g(1,{a}); }} }}"), Item::Block(vec![Sel(vec![Piece::Amp, Piece::Lit(":hover".into())]), Sel::lit(&format!(".c{j}"))], vec![Body::At(At { tag: "@media", cond: "print".into() }, vec![Body::Decl(decl("--z", &format!("g(1,{a})")))])])));
            }
            2 => {
                let a = h(&mut i);
                out.push((format!("@media (min-width:{a}) {{ .m {{ --z: 1; }} }}"), Item::At(At { tag: "@media", cond: format!("(min-width:{a})") }, vec![Item::Block(vec![Sel::lit(".m")], vec![Body::Decl(decl("--z", "1"))])])));
            }
            3 => {
                let a = h(&mut i);
                out.push((format!("@supports (display:grid) {{ .m {{ --z: {a}; }} }}"), Item::At(At { tag: "@supports", cond: "(display:grid)".into() }, vec![Item::Block(vec![Sel::lit(".m")], vec![Body::Decl(decl("--z", &a))])])));
            }
            4 => {
                let a = h(&mut i);
                out.push((format!("--v{j}: {a};"), Item::Dangling(vec![decl(&format!("--v{j}"), &a)])));
            }
            _ => {
                let (a, b) = (h(&mut i), h(&mut i));
                out.push((format!("--w{j}: f({a},{b});"), Item::Dangling(vec![decl(&format!("--w{j}"), &format!("f({a},{b})"))])));
            }
        }
    }
    out
}

fn case(r: &mut Rng, k: usize) -> (String, Vec<String>, String) {
    let mut notes: Vec<String> = vec![];
    let all = contexts();
    let c = if r.chance(1, 5) { &all[0] } else { r.pick_of(&all) };
    if !c.name.is_empty() {
        notes.push(c.name.into());
    }
    let bare = r.chance(1, 4);
    if bare {
        notes.push("no prelude".into());
    }
    let mut pool: Vec<Ex> = vec![];
    let mut items = String::new();
    let mut used_types: Vec<&str> = vec![];
    let mut locals = String::new();
    let same = |s: &str| vec![s.to_string(); c.times];
    // `?` looks for From implementations by itself, names do not matter
    for _ in 0..r.below(4) {
        match r.below(8) {
            0..=3 => {
                let t = *r.pick_of(TYPES);
                if used_types.contains(&t) {
                    continue;
                }
                used_types.push(t);
                match r.below(4) {
                    0 => {
                        items.push_str(&format!("pub enum {t} {{ A, B }}\nimpl {t} {{ pub fn word(self) -> &'static str {{ \"{t}-a\" }} }}\n"));
                        pool.push(Ex(format!("{t}::A.word()"), same(&format!("{t}-a"))));
                    }
                    1 => {
                        items.push_str(&format!("pub trait {t} {{ fn it() -> u8 {{ 90 }} fn into_it(&self) -> u8 {{ 91 }} }}\nimpl {t} for u64 {{}}\n"));
                        pool.push(Ex(format!("<u64 as {t}>::it()"), same("90")));
                    }
                    _ => {
                        items.push_str(&format!("pub struct {t};\nimpl {t} {{ pub const W: &'static str = \"w-{t}\"; pub fn from(a: u32) -> u32 {{ a + 1 }} pub fn new() -> u32 {{ 12 }} }}\n"));
                        pool.push(match r.below(3) {
                            0 => Ex(format!("{t}::W"), same(&format!("w-{t}"))),
                            1 => Ex(format!("{t}::from(3)"), same("4")),
                            _ => Ex(format!("{t}::new()"), same("12")),
                        });
                    }
                }
                notes.push(format!("user's {t}"));
            }
            4 => {
                if items.contains("Bad") {
                    continue;
                }
                let m: Vec<&str> = ["to_string", "into", "as_ref", "to_owned", "borrow", "fmt", "to_css", "write_style", "from_it"].into_iter().filter(|_| r.chance(1, 2)).collect();
                items.push_str("pub trait Bad {\n");
                for m in &m {
                    items.push_str(&format!("    fn {m}(&self) -> &'static str {{ \"wrong\" }}\n"));
                }
                items.push_str("}\nimpl<T: ?::std::marker::Sized> Bad for T {}\n");
                notes.push(format!("methods on everything: {}", m.join(" ")));
            }
            5 => {
                if items.contains("struct Own") {
                    continue;
                }
                items.push_str("pub struct Own;\nimpl ::std::fmt::Display for Own { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(\"own\") } }\nimpl Own { pub fn to_string(&self) -> &'static str { \"wrong\" } pub fn into(self) -> &'static str { \"wrong\" } pub fn fmt(&self) {} pub fn as_str(&self) -> &'static str { \"wrong\" } }\nimpl ::std::ops::Deref for Own { type Target = str; fn deref(&self) -> &str { \"wrong\" } }\n");
                pool.push(Ex((*r.pick_of(&["Own", "&Own", "&&Own"])).into(), same("own")));
                notes.push("own methods".into());
            }
            6 => {
                let m = *r.pick_of(&["vec", "format", "concat", "sheet", "css", "write", "matches", "compile_error"]);
                if items.contains(&format!("macro_rules! {m}")) {
                    continue;
                }
                items.insert_str(0, &format!("macro_rules! {m} {{ ($($t:tt)*) => {{ \"users-{m}\" }} }}\n"));
                pool.push(Ex(format!("{m}!(1)"), same(&format!("users-{m}"))));
                notes.push(format!("user's {m}!"));
            }
            _ => {
                let (what, e, v) = *r.pick_of(&[
                    ("pub const ITEMS: &str = \"items\";\n", "ITEMS", "items"),
                    ("pub static SHEET_REF: u16 = 404;\n", "SHEET_REF", "404"),
                    ("pub fn into() -> u8 { 61 }\n", "into()", "61"),
                    ("pub fn from() -> u8 { 62 }\n", "from()", "62"),
                    ("pub mod std { pub const W: &'static str = \"users-std\"; }\n", "self::std::W", "users-std"),
                    ("pub mod core { pub const W: &'static str = \"users-core\"; }\n", "self::core::W", "users-core"),
                    ("pub mod stylist { pub mod ast { pub const W: &'static str = \"users-stylist\"; } }\n", "self::stylist::ast::W", "users-stylist"),
                    ("pub mod once_cell { pub const W: u8 = 63; }\n", "self::once_cell::W", "63"),
                    ("pub mod ast { pub const W: u8 = 64; }\n", "ast::W", "64"),
                    ("pub mod vendor { pub const W: u8 = 65; }\n", "vendor::W", "65"),
                ]);
                if items.contains(what) {
                    continue;
                }
                items.push_str(what);
                pool.push(Ex(e.into(), same(v)));
                notes.push(what.split_whitespace().nth(2).unwrap_or("").trim_end_matches([':', '{', ')', '(']).into());
            }
        }
    }
    for _ in 0..r.below(3) {
        let l = *r.pick_of(LOCALS);
        if locals.contains(&format!("let {l} ")) {
            continue;
        }
        locals.push_str(&format!("let {l} = \"loc-{l}\"; "));
        pool.push(Ex(l.into(), same(&format!("loc-{l}"))));
        notes.push(format!("local {l}"));
    }
    // ---- the invocation
    let mut exs: Vec<Ex> = vec![];
    let n = if c.must { r.range(1, 4) } else { r.below(5) };
    for _ in 0..n {
        exs.push(if !pool.is_empty() && r.chance(1, 2) { r.pick_of(&pool).clone() } else { let f = *r.pick_of(FREE); Ex(f.0.into(), same(f.1)) });
    }
    if !c.special.is_empty() && (c.must || (n > 0 && r.chance(3, 4))) {
        let at = r.below(exs.len());
        let e = r.pick_of(&c.special).clone();
        exs[at] = e;
    }
    let mut st = statements(r, exs.len());
    // `${` has a meaning of its own within macro_rules!
    let template = c.name == "macro making items";
    let inline = !template && r.chance(1, 2);
    if template {
        for e in exs.iter_mut().filter(|e| e.0.contains('$')) {
            *e = Ex("1 + 1".into(), same("2"));
        }
    }
    if !inline {
        // an argument that is not `a(b)::<C, D>` needs no parentheses
        for e in &mut exs {
            if e.0.starts_with("&mut") {
                e.0 = format!("({})", e.0);
            }
        }
    }
    // as written: bare declarations first
    st.sort_by_key(|m| !matches!(m.1, Item::Dangling(_)));
    let model: Model = st.iter().map(|m| m.1.clone()).collect();
    let text: Vec<String> = st.iter().map(|m| m.0.clone()).collect();
    let text = text.join(if r.chance(1, 2) { " " } else { "\n    " });
    let fillx = |f: &dyn Fn(usize) -> String| -> String { text.chars().map(|ch| (ch as u32).checked_sub(HOLE).filter(|i| (*i as usize) < exs.len()).map_or(ch.to_string(), |i| f(i as usize))).collect() };
    let body = if inline {
        fillx(&|i| format!("${{{}}}", exs[i].0))
    } else {
        let mut o = raw(&fillx(&|i| format!("${{a{i}}}")));
        let mut order: Vec<usize> = (0..exs.len()).collect();
        if r.chance(1, 3) {
            r.shuffle(&mut order);
        }
        for i in order {
            o.push_str(&format!(", a{i} = {}", exs[i].0));
        }
        if r.chance(1, 4) {
            o.push(',');
        }
        o
    };
    let kind = if c.sheet || c.name == "thread" { 0 } else { r.below(4) };
    let (path, wrap) = [("::stylist::ast::sheet", "Sheet"), ("::stylist::css", "Source"), ("::stylist::style", "Style"), ("::stylist::global_style", "Global")][kind];
    let (open, close) = *r.pick_of(&[("(", ")"), ("{", "}"), ("[", "]")]);
    let mut made = match r.below(6) {
        0 => { items.push_str(&format!("use {path} as renamed;\n")); format!("renamed!{open}{body}{close}") }
        _ => format!("{path}!{open}{body}{close}"),
    };
    match r.below(8) {
        0 => made = format!("{{ let made = {made}; made }}"),
        1 => made = format!("({made}, 1).0"),
        2 => made = format!("match true {{ true => {made}, _ => ::std::unreachable!() }}"),
        3 => made = format!("if true {{ {made} }} else {{ ::std::unreachable!() }}"),
        _ => (),
    }
    let m = format!("out.made(::surpage::Made::{wrap}({made}))");
    let code = put(c.code, &locals, &m);
    let class = (kind != 3).then_some("K");
    let mut events: Vec<String> = vec![];
    if c.name == "macro taking an expression" {
        events.push(expected(&vec![Item::Dangling(vec![Decl { key: "--v0".into(), val: "9".into() }])], Some("K")));
    }
    for t in 0..c.times {
        let mut m = model.clone();
        let args: Vec<Arg> = exs.iter().map(|e| Arg { name: String::new(), vals: vec![e.1[t].clone()], setup: String::new(), expr: String::new() }).collect();
        each_text(&mut m, &mut |s, _| *s = fill(s, &args, 0));
        events.push(expected(&m, class));
    }
    if let Some(e) = c.end {
        events.push(e.into());
    }
    notes.push(if inline { "inline".into() } else { "literal".into() });
    let attr = if bare { "#[no_implicit_prelude]\n" } else { "" };
    (format!("// case {k}\n{attr}pub mod c{k} {{\n{items}{code}\n}}\n"), events, notes.join(", "))
}

/// Replaces the words `L` and `M`.
fn put(code: &str, l: &str, m: &str) -> String {
    let mut o = String::new();
    for (i, line) in code.split('\n').enumerate() {
        if i > 0 {
            o.push('\n');
        }
        o.push_str(&line.split(' ').map(|w| match w {
            "L" => l.to_string(),
            "M;" => format!("{m};"),
            "M" => m.to_string(),
            "M);" => format!("{m});"),
            w => w.to_string(),
        }).collect::<Vec<_>>().join(" "));
    }
    o
}

pub fn main(seed: u64, n: usize, out: &str, skip: &[&str]) {
    let (mut text, mut table, mut want) = (String::new(), String::new(), String::new());
    for k in 0..n {
        let (t, events, note) = case(&mut Rng::derive(seed, "SURROUND", k as u64), k);
        want.push_str(&format!("    Want {{ case: {k}, note: {}, events: &[{}] }},\n", raw(&note), events.iter().map(|m| raw(m)).collect::<Vec<_>>().join(", ")));
        if skip.contains(&&*k.to_string()) {
            continue;
        }
        text.push_str(&t);
        table.push_str(&format!("    ({k}, c{k}::run),\n"));
    }
    crate::write(out, &format!("{text}// case -\npub const CASES: &[(usize, fn(&mut surpage::Out))] = &[\n{table}];\n"));
    crate::write(&format!("{out}.want"), &format!("const WANT: &[Want] = &[\n{want}];\n"));
}
