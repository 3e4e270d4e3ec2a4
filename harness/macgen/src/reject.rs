//! Invocations that have to be refused at compile time, each next to variations that have to be taken.
use crate::*;
use stylist_core::ast::Sheet;

pub struct Out {
    pub src: String,
    pub table: String,
    line: usize,
    n: usize,
}

impl Out {
    pub fn new() -> Out {
        let src = String::new();
        Out { src, table: String::new(), line: 1, n: 0 }
    }
    /// One function; the table says which lines are its own, and what has to happen.
    fn add(&mut self, r: &mut Rng, kind: &str, reject: bool, args: &[Arg], invoke: &str) {
        let path = *r.pick_of(&["stylist::ast::sheet!", "stylist::ast::sheet!", "stylist::style!", "stylist::global_style!", "stylist::css!"]);
        let (open, close) = *r.pick_of(&[("(", ")"), ("{", "}"), ("[", "]")]);
        let setup: String = args.iter().map(|a| a.setup.as_str()).collect();
        let f = format!("fn f{}(k: usize) {{\n{setup}    let _ = {path} {open}{invoke}{close};\n}}\n", self.n);
        let lines = f.matches('\n').count();
        self.table.push_str(&format!("f{}\t{}\t{}\t{}\t{}\t{}\n", self.n, self.line, self.line + lines - 1, kind, if reject { "refuse" } else { "take" }, invoke.chars().map(|c| if c.is_control() || c == '\u{2028}' || c == '\u{2029}' { c.escape_default().to_string() } else { c.to_string() }).collect::<String>()));
        self.line += lines;
        self.n += 1;
        self.src.push_str(&f);
    }
}

const BAD_DECL: &[(&str, &str)] = &[
    ("block in a value", "color: {red};"),
    ("block in a value", "color: red {};"),
    ("block in a value", "color: red {blue: 1px;} ;"),
    ("block in a value", "color: (1px);"),
    ("block in a value", "margin: 1px (2px) 3px;"),
    ("block in a value", "color: [a];"),
    ("block in a value", "grid-template: fn([a]);"),
    ("block in a value", "color: rgba(1, {2}, 3);"),
    ("block in a value", "color: rgba(1, (2), 3);"),
    ("punctuation in a value", "color: red !important;"),
    ("punctuation in a value", "color: a & b;"),
    ("punctuation in a value", "color: a * b;"),
    ("punctuation in a value", "color: calc(1px + 2px);"),
    ("punctuation in a value", "color: a = b;"),
    ("punctuation in a value", "color: a > b;"),
    ("punctuation in a value", "color: a < b;"),
    ("punctuation in a value", "color: a.b;"),
    ("punctuation in a value", "color: a ~ b;"),
    ("punctuation in a value", "color: a ^ b;"),
    ("punctuation in a value", "color: a | b;"),
    ("punctuation in a value", "color: a ? b;"),
    ("punctuation in a value", "color: a @b;"),
    ("punctuation in a value", "color: $x;"),
    ("punctuation in a value", "color: fn(a; b);"),
    ("punctuation in a value", "color: fn(fn(a; b), c);"),
    ("empty interpolation", "color: ${};"),
    ("interpolation of no expression", "color: ${a b};"),
    ("interpolation of no expression", "color: ${1 +};"),
    ("interpolation of no expression", "color: ${let x = 1;};"),
    ("declaration without colon", "color red;"),
    ("declaration without colon", "color;"),
    ("declaration without colon", ".a;"),
    ("declaration without name", ": red;"),
    ("declaration with a bad name", "1px: red;"),
    ("declaration with a bad name", "\"color\": red;"),
    ("declaration with a bad name", "color!: red;"),
    ("stray semicolon", ";"),
    ("stray semicolon", "color: red;;"),
    ("at-rule without block", "@media print;"),
    ("at-rule without block", "@supports (a: b);"),
    ("at-rule without name", "@ {}"),
    ("at-rule without name", "@1 {}"),
    ("at-rule without name", "@\"media\" {}"),
];

/// Only as the last thing of a block.
const BAD_LAST: &[(&str, &str)] = &[
    ("declaration without end", "color: red"),
    ("declaration without end", "color:"),
    ("declaration without end", "color"),
    ("declaration without end", "color: ${1}"),
    ("selector without block", "&:hover"),
    ("selector without block", ".a, .b"),
    ("at-rule without block", "@media print"),
    ("at-rule without block", "@media"),
    ("at-rule without name", "@"),
];

/// Not inside of a block.
const BAD_BLOCK: &[(&str, &str)] = &[
    ("number in a selector", "a 1 { color: red; }"),
    ("number in a selector", ".b, 1.5 { color: red; }"),
    ("number in a selector", "a[1] {}"),
    ("number in a selector", "[a = 1] {}"),
    ("number in a selector", "a, b[c=2.5] c:hover {}"),
    ("punctuation in a selector", "a[b ! c] {}"),
    ("punctuation in a selector", "[a < b], c {}"),
    ("block in a selector", "[a = (b)] {}"),
    ("semicolon in a selector", "[a; b] {}"),
    ("number in a selector", "'c' {}"),
    ("number in a selector", "a b\"x\" {}"),
    ("number in a selector", "10px {}"),
    ("punctuation in a selector", "a ! b {}"),
    ("punctuation in a selector", "a % {}"),
    ("punctuation in a selector", "a / b {}"),
    ("punctuation in a selector", "a ? b {}"),
    ("punctuation in a selector", "a < b {}"),
    ("punctuation in a selector", "a @ b {}"),
    ("punctuation in a selector", ".a @media print {}"),
    ("block in a selector", "(a) {}"),
    ("block in a selector", ".a > (b) {}"),
    ("block in a selector", "[a {b}] {}"),
    ("semicolon in a selector", ".a; .b {}"),
    ("semicolon in a selector", ".a .b; {}"),
    ("nested block", "a { b { color: red; } }"),
    ("nested block", "a { color: red; .b:hover { } }"),
    ("nested block", "a { > b { color: red; } color: red; }"),
    ("nested block", "a { & { color: red; } }"),
    ("nested block", "@media print { a { b { color: red; } } }"),
    ("nested block", "a { @media print { b { color: red; } } }"),
    ("nested block", "a { @media print { @supports (a: b) { color: red; .b { color: red; } } } }"),
];

/// Anywhere.
const BAD_RULE: &[(&str, &str)] = &[
    ("unsupported at-rule", "@keyframes x { }"),
    ("unsupported at-rule", "@keyframes x { from { color: red; } }"),
    ("unsupported at-rule", "@font-face { src: a; }"),
    ("unsupported at-rule", "@container (min-width: 1px) { color: red; }"),
    ("unsupported at-rule", "@layer x { color: red; }"),
    ("unsupported at-rule", "@page { margin: 1px; }"),
    ("unsupported at-rule", "@mediaprint { color: red; }"),
    ("unsupported at-rule", "@media-x (a: b) { color: red; }"),
    ("unsupported at-rule", "@import \"a\";"),
    ("unsupported at-rule", "@charset \"a\";"),
];

fn inline_one(out: &mut Out, r: &mut Rng) {
    let (where_, last) = (r.below(4), r.chance(1, 4));
    let (kind, bad, last) = match r.below(if where_ < 2 { 4 } else { 3 }) {
        0 if last => {
            let b = r.pick_of(BAD_LAST);
            (b.0, b.1, true)
        }
        0 | 1 => {
            let b = r.pick_of(BAD_DECL);
            (b.0, b.1, false)
        }
        2 => {
            let b = r.pick_of(BAD_RULE);
            (b.0, b.1, false)
        }
        _ => {
            let b = r.pick_of(BAD_BLOCK);
            (b.0, b.1, false)
        }
    };
    // the same place without it has to be fine
    let block = where_ >= 2;
    let n = r.below(3);
    let (before, mut args) = inline::sample(r, n, block, 0);
    let n = r.below(3);
    let (after, more) = if last { (String::new(), vec![]) } else { inline::sample(r, n, block, args.len()) };
    args.extend(more);
    let n = r.below(2);
    let (tail, more) = inline::sample(r, n, false, args.len());
    args.extend(more);
    let wrap = |x: &str| match where_ {
        0 => x.to_string(),
        1 => format!("@media print {{ {x} }} {tail}"),
        2 => format!(".a, &:hover {{ {x} }} {tail}"),
        _ => format!(".a {{ @supports (a: b) {{ {x} }} color: red; }} {tail}"),
    };
    let good = wrap(&format!("{before} {after}"));
    // an invocation that begins with a literal is another syntax
    let bad = wrap(&format!("{before} {bad} {after}"));
    if bad.trim_start().starts_with(|c: char| c == '"' || c == '\'' || c.is_ascii_digit()) {
        return;
    }
    out.add(r, kind, true, &args, &bad);
    if r.chance(1, 2) {
        out.add(r, "fine", false, &args, &good);
    }
}

fn literal_args(out: &mut Out, r: &mut Rng) {
    let Some((text, args)) = literal::sample(r) else { return };
    let show = |r: &mut Rng, t: &str, a: &[String]| {
        let mut s = rust_str(r, t);
        for a in a {
            s.push_str(", ");
            s.push_str(a);
        }
        s
    };
    let list: Vec<String> = args.iter().map(|a| format!("{} = {}", a.name, a.expr)).collect();
    let fine = show(r, &text, &list);
    out.add(r, "fine", false, &args, &fine);
    let k = r.below(list.len());
    let mut l = list.clone();
    let at = r.below(l.len() + 1);
    let kind = match r.below(9) {
        0 | 1 => {
            l.remove(k);
            "missing argument"
        }
        2 => {
            l.insert(at, "zz_unused = 1".into());
            "unused argument"
        }
        3 => {
            // used under another name
            l[k] = format!("{}_ = {}", args[k].name, args[k].expr);
            "misspelled argument"
        }
        4 => {
            let again = l[k].clone();
            l.insert(at, again);
            "argument given twice"
        }
        5 => {
            l.insert(at, r.pick(&["1", "\"x\" = 1", "(a) = 1", "= 1", "-x = 1"]).into());
            "argument without a name"
        }
        6 => {
            l[k] = match r.below(5) {
                0 => args[k].name.clone(),
                1 => format!("{} {}", args[k].name, args[k].expr),
                4 => format!("{} {} {}", args[k].name, r.pick(&["x", "1", "\"=\"", "(=)", "self"]), args[k].expr),
                2 => format!("{}: {}", args[k].name, args[k].expr),
                _ => format!("{} => {}", args[k].name, args[k].expr).replacen("=>", "-", 1),
            };
            "argument without ="
        }
        7 => {
            let s = format!("{} {}", rust_str(r, &text), list.join(", "));
            return out.add(r, "no comma after the sheet", true, &args, &s);
        }
        _ => {
            let s = format!("{}, {}", rust_str(r, &text), r.pick(&["", "zz = 1, "]));
            return out.add(r, "missing argument", true, &args, &s);
        }
    };
    let s = show(r, &text, &l);
    out.add(r, kind, true, &args, &s);
}

fn literal_holes(out: &mut Out, r: &mut Rng) {
    let mut prof = Profile::full();
    prof.max_items = 2;
    prof.big = 0;
    let m = gen_model(r, &prof);
    let good = print(&m, r, 0).replace("${", "$${");
    let hole = *r.pick_of(&["${}", "${ }", "${1a}", "${a b}", "${a-b}", "${-a}", "${_}", "${a.b}", "${a()}", "${\"a\"}", "${a:b}", "${a!}", "${ä}"]);
    let bad = match r.below(4) {
        0 => format!("color: {hole}; {good}"),
        1 => format!("{good} .x {{ color: 1px {hole} 2px; }}"),
        2 => format!("{good} .x:is({hole}) {{ color: red; }}"),
        _ => format!("{good} @media (min-width: {hole}) {{ color: red; }}"),
    };
    let s = rust_str(r, &bad);
    out.add(r, "malformed interpolation", true, &[], &format!("{s}, a = 1, b = 2"));
    let s = rust_str(r, &bad.replace("${", "$${"));
    // what cannot stand in CSS once the dollar sign is text is none of this rule
    if bad.replace("${", "$${").parse::<Sheet>().is_ok() {
        out.add(r, "fine", false, &[], &s);
    }
}

fn literal_text(out: &mut Out, r: &mut Rng) {
    let mut prof = Profile::full();
    prof.max_items = 3;
    prof.big = 60;
    let m = gen_model(r, &prof);
    let mut t = print(&m, r, 1).replace("${", "");
    for _ in 0..1 + r.below(2) {
        let v: Vec<char> = t.chars().collect();
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        let mut w = v.clone();
        match r.below(6) {
            0 => w.truncate(i),
            1 => {
                w.remove(i);
            }
            2 => w.insert(i, *r.pick_of(&['{', '}', ';', ':', '"', '\'', '(', ')', '@', ',', '/', '*', '[', ']'])),
            3 => w[i] = *r.pick_of(&['{', '}', ';', ':', '"', '(', ')', ' ']),
            4 => w.insert(i, w[i]),
            _ => {
                let j = r.below(v.len());
                w.swap(i, j);
            }
        }
        t = w.into_iter().collect();
    }
    if t.contains('$') {
        return;
    }
    let ok = std::panic::catch_unwind(|| t.parse::<Sheet>().is_ok());
    let Ok(ok) = ok else { return };
    let s = rust_str(r, &t);
    out.add(r, if ok { "text the parser takes" } else { "text the parser refuses" }, !ok, &[], &s);
}

fn no_sheet(out: &mut Out, r: &mut Rng) {
    let s = *r.pick_of(&["b\"color: red;\"", "1", "'c'", "1.5, a = 1", "b'x'", "\"a\" \"b\"", "\"color: red;\"; ", "\"color: red;\" + \"x\"", "\"color: red;\", a", "\"color: red;\", ,", "\"color: red;\",, a = 1", "c\"color: red;\"", "br\"color: red;\""]);
    out.add(r, "not a sheet", true, &[], s);
}

const NO_DISPLAY: &[&str] = &["()", "Some(1)", "vec![1]", "(1, 2)", "[1]", "|| 1", "std::cell::Cell::new(1)", "NoDisplay", "nowhere_defined", "&()", "Box::new(())", "Err::<i32, i32>(1)", "std::time::Duration::from_secs(1)", "std::path::Path::new(\"a\")", "std::ffi::OsStr::new(\"a\")", "{ let x = 1; }", "std::collections::HashMap::<u8, u8>::new()", "&[1u8][..]", "\"a\" + 1"];
const DISPLAY: &[&str] = &["'c'", "true", "1.5f32", "Box::new(1) as Box<dyn std::fmt::Display>", "&1 as &dyn std::fmt::Display", "std::rc::Rc::new(String::new())", "format_args!(\"a\")", "std::net::Ipv4Addr::LOCALHOST", "1u128", "std::num::NonZeroU8::new(1).unwrap()", "std::borrow::Cow::Borrowed(\"x\")", "String::new()", "Shown(std::cell::Cell::new(1))", "&&&&1", "std::cell::RefCell::new(1).borrow()", "std::sync::Mutex::new(2).lock().unwrap()"];

pub fn untyped(seed: u64, n: usize) -> Out {
    let mut out = Out::new();
    for i in 0..n {
        let r = &mut Rng::derive(seed, "REJ", i as u64);
        match i % 8 {
            0..=2 => inline_one(&mut out, r),
            3 | 4 => literal_args(&mut out, r),
            5 => literal_holes(&mut out, r),
            6 => literal_text(&mut out, r),
            _ if i % 5 == 0 => no_sheet(&mut out, r),
            _ => inline_one(&mut out, r),
        }
    }
    out
}

pub fn typed(seed: u64, n: usize) -> Out {
    let mut out = Out::new();
    for i in 0..n {
        let r = &mut Rng::derive(seed, "REJT", i as u64);
        let refuse = r.chance(2, 3);
        let e = *r.pick_of(if refuse { NO_DISPLAY } else { DISPLAY });
        let kind = if refuse { "interpolated value that cannot be displayed" } else { "fine" };
        let inv = match r.below(7) {
            0 => format!("\"color: ${{x}};\", x = {e}"),
            1 => format!("\"${{x}} {{ color: ${{y}}; }}\", y = 1, x = {e},"),
            2 => format!("\"@media (min-width: ${{x}}) {{ a {{ color: red; }} }}\", x = {e}"),
            3 => format!("color: 1px ${{{e}}};"),
            4 => format!("& > ${{{e}}} {{ color: red; }}"),
            5 => format!("@media print and ${{{e}}} {{ color: red; }}"),
            _ => format!(".a {{ ${{{e}}}: url(${{1}}); }}"),
        };
        out.add(r, kind, refuse, &[], &inv);
    }
    out
}
