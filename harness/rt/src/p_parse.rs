//! P01 fidelity, P02 strictness, P03 totality, P04 determinism of the runtime parser.
use crate::conv;
use crate::util::guard;
use oracle::css;
use oracle::model::{self, *};
use oracle::report::{Opts, Report};
use oracle::rng::Rng;
use std::collections::{BTreeMap, HashMap, HashSet};
use stylist::ast::{Sheet, ToStyleStr};
use stylist::Style;

pub fn diff(exp: &[Node], got: &[Node]) -> String {
    let (e, g) = (model::show_nodes(exp), model::show_nodes(got));
    let (el, gl): (Vec<_>, Vec<_>) = (e.lines().collect(), g.lines().collect());
    let i = el.iter().zip(&gl).take_while(|(a, b)| a == b).count();
    format!(
        "first difference at line {i}:\n  expected: {}\n  got:      {}",
        el.get(i).unwrap_or(&"<end>"),
        gl.get(i).unwrap_or(&"<end>")
    )
}

/// Fixed spellings whose meaning is known.
const PROBES: &[(&str, &str, &[(&str, &str)])] = &[
    // sig, source, expected (selector, decl) pairs (selector "" = current scope)
    ("dangling-then-pseudo", "color: red;\na:hover { x: y; }", &[("", "color: red"), ("a:hover", "x: y")]),
    ("dangling-then-pseudo-nested", "@media print { color: red; .a { b: c } d: e; li:first-child::marker { x: y; } }",
        &[("", "color: red"), (".a", "b: c"), ("", "d: e"), ("li:first-child::marker", "x: y")]),
    ("single-quote-semicolon", "content: 'a;b: c';", &[("", "content: 'a;b: c'")]),
    ("single-quote-brace", ".a { content: '}'; b: c }", &[(".a", "content: '}'"), (".a", "b: c")]),
    ("single-quote-in-selector", "a[b='x,y'] { c: d }", &[("a[b='x,y']", "c: d")]),
    ("paren-comma", ":is(.a, .b) c, d { x: y }", &[(":is(.a,.b) c , d", "x: y")]),
    ("attr-suffix", "a[href$=\".pdf\"] { x: y }", &[("a[href$=\".pdf\"]", "x: y")]),
    ("empty-nested-at", ".a { @media print { } b: c; }", &[(".a", "b: c")]),
    ("empty-keyframes", "@keyframes x { } a: b;", &[("", "a: b")]),
    ("empty-frame", "@keyframes x { from { } } a: b;", &[("", "a: b")]),
    ("comment-comma-in-selector", "a /* x, y */ b { c: d }", &[("a b", "c: d")]),
    ("comment-brace-in-selector", "a /* { */ b { c: d }", &[("a b", "c: d")]),
    ("string-brace-in-condition", "@supports (content: \"{\") { a: b; }", &[("", "a: b")]),
];

fn flat_decls(n: &[Node], out: &mut Vec<(String, String)>, sel: &str) {
    for m in n {
        match m {
            Node::Decl(k, v) => out.push((sel.to_string(), format!("{k}: {v}"))),
            Node::Block(s, c) => flat_decls(c, out, &s.join(" , ")),
            Node::At(_, c) => flat_decls(c, out, sel),
        }
    }
}

pub fn p01(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(15_000, 400_000));
    let mut rep = Report::new(
        o,
        "a random stylesheet model is printed in a random spelling (whitespace, comments, optional semicolons), parsed through Sheet::from_str, and the whole AST is compared with the model; non-trivial: at least two declarations; distinct by source text",
    );
    rep.require("declarations", 1000);
    for (sig, src, exp) in PROBES {
        let sig = format!("probe:{sig}");
        rep.count("probes", 1);
        match guard(|| src.parse::<Sheet>()) {
            Err(p) => rep.violation(&sig, format!("parser panicked: {p}\nsource: {src}")),
            Ok(Err(_)) => rep.violation(&sig, format!("valid sheet rejected\nsource: {src}")),
            Ok(Ok(s)) => {
                let mut got = vec![];
                flat_decls(&conv::tree(&s), &mut got, "");
                let exp: Vec<(String, String)> =
                    exp.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                if got != exp {
                    rep.violation(&sig, format!("source: {src}\nexpected: {exp:?}\ngot: {got:?}"));
                }
            }
        }
    }
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P01", i as u64);
        let m = gen_model(&mut r, &Profile::full());
        let trivia = r.below(3);
        let src = print(&m, &mut r, trivia);
        let exp = expect_tree(&m);
        let nd = count_decls(&m);
        rep.case(&src, nd >= 2);
        rep.count("declarations", nd as u64);
        rep.max("max_source_bytes", src.len() as u64);
        rep.max("max_nesting", exp.iter().map(Node::depth).max().unwrap_or(0) as u64);
        if i < 3 {
            rep.sample(src.clone());
        }
        match guard(|| src.parse::<Sheet>()) {
            Err(p) => rep.violation(&format!("case:{i}"), format!("parser panicked: {p}\nsource:\n{src}")),
            Ok(Err(e)) => {
                rep.violation(&format!("case:{i}"), format!("valid sheet rejected: {e}\nsource:\n{src}"))
            }
            Ok(Ok(s)) => {
                let got = conv::tree(&s);
                rep.count("ast_nodes_compared", model::show_nodes(&got).lines().count() as u64);
                if got != exp {
                    rep.violation(&format!("case:{i}"), format!("{}\nsource:\n{src}", diff(&exp, &got)));
                }
            }
        }
    }
    rep.finish()
}

// ------------------------------------------------------------------ P02

fn squeeze(s: &str) -> Vec<char> {
    s.chars().filter(|c| !c.is_ascii_whitespace() && !matches!(c, '{' | '}' | ';' | ':' | ',')).collect()
}

/// Can `ast` be obtained from `src` by dropping only punctuation, whitespace and comments?
fn conserved(src: &str, ast: &str) -> bool {
    let s: Vec<char> = src.chars().collect();
    let a = squeeze(ast);
    let mut seen = HashSet::new();
    let mut stack = vec![(0usize, 0usize)];
    while let Some((mut i, mut j)) = stack.pop() {
        loop {
            if i == s.len() {
                if j == a.len() {
                    return true;
                }
                break;
            }
            let c = s[i];
            if c == '/' && s.get(i + 1) == Some(&'*') {
                if !seen.insert((i, j)) {
                    break;
                }
                let mut k = i + 2;
                while k + 1 < s.len() && !(s[k] == '*' && s[k + 1] == '/') {
                    k += 1;
                }
                if k + 1 < s.len() {
                    stack.push((k + 2, j));
                }
            }
            if c.is_ascii_whitespace() || matches!(c, '{' | '}' | ';' | ':' | ',') {
                i += 1;
            } else if j < a.len() && a[j] == c {
                i += 1;
                j += 1;
            } else {
                break;
            }
        }
    }
    false
}

/// (brace depth, in string, in comment) at every char boundary of a canonical source.
pub fn open_state(src: &str) -> Vec<(usize, i32, bool, bool)> {
    let b: Vec<(usize, char)> = src.char_indices().collect();
    let mut out = vec![];
    let (mut d, mut st, mut cm) = (0i32, None::<char>, false);
    let mut k = 0;
    while k < b.len() {
        let (i, c) = b[k];
        out.push((i, d, st.is_some(), cm));
        if cm {
            if c == '*' && b.get(k + 1).map(|m| m.1) == Some('/') {
                out.push((b[k + 1].0, d, false, true));
                cm = false;
                k += 2;
                continue;
            }
        } else if let Some(q) = st {
            if c == '\\' {
                if k + 1 < b.len() {
                    out.push((b[k + 1].0, d, true, false));
                }
                k += 2;
                continue;
            }
            if c == q {
                st = None;
            }
        } else if c == '\\' {
            // an escaped character is as good as one in a string
            if k + 1 < b.len() {
                out.push((b[k + 1].0, d, true, false));
            }
            k += 2;
            continue;
        } else if c == '/' && b.get(k + 1).map(|m| m.1) == Some('*') {
            out.push((b[k + 1].0, d, false, false));
            cm = true;
            k += 2;
            continue;
        } else if c == '"' || c == '\'' {
            st = Some(c);
        } else if c == '{' {
            d += 1;
        } else if c == '}' {
            d -= 1;
        }
        k += 1;
    }
    out
}

pub const BAD: &[&str] = &[
    "}", "}}", "{ a: b; }", "{}", ".a { b: c; ", ".a { b: c }}", "@media print { .a { b: c; }",
    "a: b", "a b;", ".a { b }", ".a { : c; }", ".a { b:; }", ".a { b: ; c: d }", ": red;", "color red;",
    "color: ;", ".a { b c; }", ".a { b: \"c; }", "a: \"b;", ".a[b=\"c] { d: e; }", "/* a",
    ".a { b: c; /* } ", "@media print { a: b; ", "@keyframes x { from { a: b; }",
    "@keyframes x { a: b; }", "@keyframes { from { a: b; } }", "@media { .a { b: c; } }",
    "@media print .a { b: c; } }", ".a b: c; }", ".a { b: c; } d: e; }", ".a } .b { c: d; }",
    "@media print; .a { b: c; }", "@media print } .a { b: c; }", "a: b; c } .d { e: f; }",
    ".a { .b }", ".a { b: c } ;", ";", ";;", "@supports (a: b) }{ c: d; }", "-", "@", "@media", "@media print",
    ".a", ".a {", "a:", "a: {", "a: }", "${x", "1a: b;", ".a { 1b: c; }", ".a { b: c } }", "< a: b;",
    "@unknown-rule x { a: b; }", "@media  { .a { b: c; } }", "@supports /* x */ { a: b; }", "@supports/**/{ a: b; }", "@media/* x */\n/* y */{ a: b; }", "@keyframes\n\n{ from { a: b; } }", "@mediaprint { a: b; }", "@font-face { a: b; }", "@import \"x\";", "@charset \"utf-8\";",
    "@page :first { a: b; }", "@media print { @font-face { a: b; } }", ".a { @font-face { b: c; } }",
    "@keyframes x { from { a: b; } } }", "@keyframes x { from { a: b; }", "a: b; .c ; .d { e: f; }",
    "a: b(c; d: e;", ".a { b: c(d; }", ".a:is(b] { c: d; }", "@media (a: b] { c: d; }", ".a { b: (c]; }", "a: b) c;", ".a { b: c]; }",
    ".a { b: url(c; }", "a: [b;", ".a { b: f(g(h); }", ".a[b { c: d; }", ".a:not(.b { c: d; }", "@supports (a: b { c: d; }", ".a { @media (b: c { d: e; } }",
];

pub fn p02(o: Opts) -> i32 {
    let (seed, n) = (o.seed, o.n(15_000, 400_000));
    let mut rep = Report::new(
        o,
        "malformed sheets: (a) a known syntax error between valid items, (b) a valid sheet cut inside an open block, string or comment, (c) a brace removed or added, (d) random character edits - the first three must be rejected; whatever is accepted must conserve all of its text; non-trivial: more than 20 bytes; distinct by source text",
    );
    rep.require("must_reject", 1000);
    rep.require("accepted_conserving", 100);
    let prof = Profile::full();
    // every known syntax error on its own first
    for b in BAD {
        rep.case(b, false);
        rep.count("must_reject", 1);
        if let Ok(Ok(s)) = guard(|| b.parse::<Sheet>()) {
            rep.violation(&format!("bad:{b}"), format!("malformed sheet accepted: {b}\n{}", s.to_style_str(Some("C"))));
        }
    }
    for i in 0..n {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P02", i as u64);
        let mut p = prof.clone();
        p.max_items = 4;
        let mut m = gen_model(&mut r, &p);
        let kind = i % 4;
        let sig = format!("case:{i}");
        let (src, must_reject, what) = match kind {
            0 => {
                let k = r.below(m.len() + 1);
                let tail = m.split_off(k);
                let bad = r.pick(BAD);
                let t = r.below(3);
                let (a, b) = (print(&m, &mut r, t), print(&tail, &mut r, t));
                // An error that ends in an open construct could be completed by what follows.
                let open = bad_is_open(bad);
                let s = if open { format!("{a}\n{bad}") } else { format!("{a}\n{bad}\n{b}") };
                let wrap = r.below(4) == 0;
                let s = if wrap && !open { format!("@media print {{ {s} }}") } else { s };
                // wrapped, a stray brace may close the wrapper: the text behind it is then what is wrong
                (s, true, "syntax error between items")
            }
            1 => {
                let t = r.below(3);
                let s = print(&m, &mut r, t);
                let cuts: Vec<usize> = open_state(&s)
                    .into_iter()
                    .filter(|(_, d, st, cm)| *d > 0 || *st || *cm)
                    .map(|m| m.0)
                    .collect();
                if cuts.is_empty() {
                    continue;
                }
                let k = *r.pick_of(&cuts);
                (s[..k].to_string(), true, "cut inside an open block, string or comment")
            }
            2 if r.chance(1, 3) => {
                // brackets of values, selectors and conditions
                let s = print(&m, &mut r, 0);
                let b = s.as_bytes();
                let st: Vec<usize> = open_state(&s).into_iter().filter(|(i, _, q, c)| !q && !c && (*i == 0 || b[*i - 1] != b'\\')).map(|m| m.0).collect();
                let brackets: Vec<usize> = st.iter().copied().filter(|i| matches!(b[*i], b'(' | b')' | b'[' | b']')).collect();
                let from = if brackets.is_empty() || r.chance(1, 4) { &st } else { &brackets };
                let k = *r.pick_of(from);
                match b[k] {
                    c @ (b'(' | b')' | b'[' | b']') => {
                        let other = match c {
                            b'(' => "[",
                            b')' => "]",
                            b'[' => "(",
                            _ => ")",
                        };
                        let put = if r.chance(1, 2) { other } else { "" };
                        (format!("{}{put}{}", &s[..k], &s[k + 1..]), true, "a bracket removed or replaced")
                    }
                    _ => (format!("{}{}{}", &s[..k], r.pick(&["(", ")", "[", "]"]), &s[k..]), true, "a bracket added"),
                }
            }
            2 => {
                let s = print(&m, &mut r, 0);
                let st = open_state(&s);
                let braces: Vec<usize> = st
                    .iter()
                    .filter(|(i, _, q, c)| !q && !c && matches!(s.as_bytes()[*i], b'{' | b'}'))
                    .map(|m| m.0)
                    .collect();
                if braces.is_empty() || r.chance(1, 2) {
                    // add a brace at a place outside strings and comments
                    let spots: Vec<usize> = st.iter().filter(|m| !m.2 && !m.3).map(|m| m.0).collect();
                    if spots.is_empty() {
                        continue;
                    }
                    let k = *r.pick_of(&spots);
                    let b = if r.chance(1, 2) { "}" } else { "{" };
                    if inside_brackets(&s, k) || s[..k].ends_with('\\') || (s[..k].ends_with('$') && b == "{") {
                        continue;
                    }
                    (format!("{}{}{}", &s[..k], b, &s[k..]), true, "a brace added")
                } else {
                    let k = *r.pick_of(&braces);
                    (format!("{}{}", &s[..k], &s[k + 1..]), true, "a brace removed")
                }
            }
            _ => {
                let t = r.below(3);
                let mut s: Vec<char> = print(&m, &mut r, t).chars().collect();
                for _ in 0..r.range(1, 3) {
                    if s.is_empty() {
                        break;
                    }
                    let k = r.below(s.len());
                    match r.below(4) {
                        0 => {
                            s.remove(k);
                        }
                        1 => {
                            let c = *r.pick_of(&['{', '}', ';', ':', '"', '\'', '@', '/', '*', '$', ',', 'x', ' ', '\\', '(', '&', '<', '!']);
                            s.insert(k, c);
                        }
                        2 => {
                            let l = r.below(s.len());
                            s.swap(k, l);
                        }
                        _ => {
                            let e = (k + r.range(1, 12)).min(s.len());
                            s.drain(k..e);
                        }
                    }
                }
                (s.into_iter().collect(), false, "random edits")
            }
        };
        rep.case(&src, src.len() > 20);
        rep.count(if must_reject { "must_reject" } else { "edited" }, 1);
        if i < 8 {
            rep.sample(format!("[{what}] {src}"));
        }
        match guard(|| src.parse::<Sheet>()) {
            Err(p) => rep.violation(&sig, format!("parser panicked on {what}: {p}\nsource:\n{src}")),
            Ok(Err(_)) => rep.count("rejected", 1),
            Ok(Ok(s)) => {
                if must_reject {
                    rep.violation(
                        &sig,
                        format!("accepted although {what}\nsource:\n{src}\nmeaning:\n{}", model::show_nodes(&conv::tree(&s))),
                    );
                } else if !conserved(&src, &conv::text(&s)) {
                    rep.violation(
                        &sig,
                        format!("accepted, but some text was dropped or moved ({what})\nsource:\n{src}\nmeaning:\n{}", model::show_nodes(&conv::tree(&s))),
                    );
                } else {
                    rep.count("accepted_conserving", 1);
                }
            }
        }
    }
    rep.finish()
}

/// Is the malformed fragment one that leaves a block, string or comment open?
pub fn bad_is_open(b: &str) -> bool {
    let (mut d, mut i) = (0i32, 0);
    let c: Vec<char> = b.chars().collect();
    while i < c.len() {
        match c[i] {
            '"' => {
                i += 1;
                while i < c.len() && c[i] != '"' {
                    i += 1;
                }
                if i == c.len() {
                    return true;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => return true,
            '{' => d += 1,
            '}' => d -= 1,
            _ => {}
        }
        i += 1;
    }
    // an unfinished head or declaration would swallow (legally) what follows as well
    d > 0 || !(b.ends_with('}') || b.ends_with(';')) || b == "@media print .a { b: c; } }" || b.starts_with(".a b: c")
}

fn inside_brackets(s: &str, k: usize) -> bool {
    let mut d = 0i32;
    let mut q = None::<char>;
    let mut esc = false;
    for c in s[..k].chars() {
        if esc {
            esc = false;
            continue;
        }
        match (q, c) {
            (_, '\\') => esc = true,
            (Some(x), c) if c == x => q = None,
            (Some(_), _) => {}
            (None, '"' | '\'') => q = Some(c),
            (None, '(' | '[') => d += 1,
            (None, ')' | ']') => d -= 1,
            _ => {}
        }
    }
    d > 0
}

// ------------------------------------------------------------------ P03

const SOUP: &[&str] = &[
    "{", "}", ";", ":", ",", "\"", "'", "/*", "*/", "/", "*", "@media ", "@supports ", "@container ",
    "@keyframes ", "@", "$", "${", "${x}", "$${", "&", ":root", "\\", "(", ")", "[", "]", "a", ".b", "#c", "-",
    "--", "_", "0", "1px", " ", "\n", "\r", "\t", "\0", "é", "日本", "\u{1F980}", "\u{202e}", "\u{feff}", "<", ">",
    "!important", "url(", "color: red;", ".a { b: c; }", "%", "~", "|", "^", "`", "\u{7f}", "</style>", "<!--", "from {",
];

fn p03_input(seed: u64, i: u64) -> String {
    let mut r = Rng::derive(seed, "P03", i);
    match i % 8 {
        0 | 1 => {
            let n = r.below(40);
            (0..n).map(|_| r.pick(SOUP)).collect()
        }
        2 | 3 => {
            // valid text with edits
            let m = gen_model(&mut r, &Profile::full());
            let t = r.below(3);
            let mut s: Vec<char> = print(&m, &mut r, t).chars().collect();
            for _ in 0..r.range(1, 6) {
                let k = r.below(s.len() + 1);
                if r.chance(1, 2) {
                    let ins: Vec<char> = r.pick(SOUP).chars().collect();
                    for (q, c) in ins.into_iter().enumerate() {
                        s.insert((k + q).min(s.len()), c);
                    }
                } else if k < s.len() {
                    let e = (k + r.range(1, 30)).min(s.len());
                    s.drain(k..e);
                }
            }
            s.into_iter().collect()
        }
        4 => (0..r.below(60)).map(|_| char::from_u32((r.u64() % 0x3000) as u32).unwrap_or('\u{fffd}')).collect(),
        5 => {
            // bounded nesting, closed or left open
            let d = r.range(1, 60);
            let open = r.pick(&["@media print {", "@supports (a: b) {", "@container (a: b) {\n"]);
            let mut s = open.repeat(d);
            s.push_str(r.pick(&["", "a: b;", ".c { d: e }", "}", "x", "\"", "/*"]));
            s.push_str(&"}".repeat(match r.below(3) {
                0 => d,
                1 => d + 1,
                _ => r.below(d),
            }));
            s
        }
        6 => {
            // one very repetitive construct
            let n = r.range(200, 3000);
            let u = r.pick(&[
                "a: b;", ".a {}", ".a, ", "(", "[", "\"\"", "/**/", "\\", ":", "&", " > ", "@media x {}", "--", "é", "/", "${a}", "a:", "'",
            ]);
            let mut s = u.repeat(n);
            s.push_str(r.pick(&["", " { c: d }", ";", "}", "\"", "{"]));
            s
        }
        _ => {
            let m = gen_model(&mut r, &Profile::full());
            let t = r.below(3);
            let s = print(&m, &mut r, t);
            let mut k = r.below(s.len() + 1);
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            if r.chance(1, 2) {
                s[..k].to_string()
            } else {
                s[k..].to_string()
            }
        }
    }
}

/// Child process: runs inputs first..last and reports progress on stdout, one line per input.
pub fn worker(o: Opts) -> i32 {
    use std::io::Write;
    let g = |k: &str| -> u64 {
        o.rest.iter().position(|m| m == k).and_then(|i| o.rest.get(i + 1)).unwrap().parse().unwrap()
    };
    let (first, last) = (g("--first"), g("--last"));
    let out = std::io::stdout();
    let mut out = out.lock();
    let mgr = stylist::manager::StyleManager::new().unwrap();
    for i in first..last {
        let src = p03_input(o.seed, i);
        writeln!(out, "S {i}").unwrap();
        out.flush().unwrap();
        let res = guard(|| {
            let a = src.parse::<Sheet>();
            let b = src.parse::<Sheet>();
            if a.is_ok() != b.is_ok() {
                return Err("second parse of the same text disagrees".to_string());
            }
            if let (Ok(a), Ok(b)) = (&a, &b) {
                if a != b {
                    return Err("second parse of the same text yields another sheet".into());
                }
            }
            if let Err(e) = &a {
                let t = format!("{e}{e:?}");
                if t.is_empty() {
                    return Err("empty error".into());
                }
            }
            Ok(a.is_ok())
        });
        let line = match res {
            Err(p) => format!("P {i} parser panicked: {p}"),
            Ok(Err(e)) => format!("P {i} {e}"),
            Ok(Ok(acc)) => {
                // creating a style from the same text must return, too
                match guard(|| {
                    let s = Style::new_with_manager(src.as_str(), &mgr);
                    let ok = s.is_ok();
                    if let Ok(s) = s {
                        s.unregister();
                    }
                    ok
                }) {
                    Err(p) => format!("T {i} creating a style panicked: {p}"),
                    Ok(ok) if ok != acc => format!("P {i} Style::new and Sheet::from_str disagree"),
                    Ok(true) => "A".to_string(),
                    Ok(false) => "R".to_string(),
                }
            }
        };
        writeln!(out, "{}", line.replace('\n', "\\n")).unwrap();
        // the process must stay usable
        if i % 64 == 0 {
            let ok = guard(|| "color: red;".parse::<Sheet>().map(|s| s.to_style_str(Some("C")))).ok().and_then(|m| m.ok());
            if ok.as_deref().map(|m| m.contains("color: red")) != Some(true) {
                writeln!(out, "P {i} parser no longer works after hostile input").unwrap();
            }
        }
    }
    writeln!(out, "DONE").unwrap();
    0
}

fn cpu_ticks_and_asleep(pid: u32) -> Option<(u64, bool)> {
    let mut total = 0;
    let mut asleep = true;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let s = std::fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
        let rest = s.rsplit_once(')')?.1;
        let f: Vec<&str> = rest.split_whitespace().collect();
        total += f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
        if f.first() != Some(&"S") {
            asleep = false;
        }
    }
    Some((total, asleep))
}

pub fn p03(o: Opts) -> i32 {
    use std::io::{BufRead, BufReader};
    use std::process::{Command, Stdio};
    use std::sync::mpsc::{channel, RecvTimeoutError};
    use std::time::Duration;
    let (seed, n) = (o.seed, o.n(40_000, 1_000_000) as u64);
    let tier = o.tier.clone();
    let mut rep = Report::new(
        o,
        "hostile texts (token soup, damaged sheets, random code points, nesting up to 60, long repetitions, cut sheets) are given to Sheet::from_str and Style::new in a child process; every one must come back as a value or an error; non-trivial: non-empty text; distinct by text",
    );
    rep.require("accepted", 200);
    rep.require("rejected", 2000);
    let chunk = n.div_ceil(8);
    let exe = std::env::current_exe().unwrap();
    let handles: Vec<_> = (0..8u64)
        .map(|w| {
            let exe = exe.clone();
            let tier = tier.clone();
            std::thread::spawn(move || {
                let (mut first, last) = (w * chunk, ((w + 1) * chunk).min(n));
                let mut res: Vec<(u64, String)> = vec![];
                let mut acc = [0u64; 2];
                let mut note = vec![];
                while first < last && res.len() < 5 {
                    let mut ch = Command::new(&exe)
                        .args(["P03", "--worker", "--tier", &tier, "--seed", &seed.to_string()])
                        .args(["--first", &first.to_string(), "--last", &last.to_string()])
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    let (tx, rx) = channel();
                    let out = ch.stdout.take().unwrap();
                    let rd = std::thread::spawn(move || {
                        for l in BufReader::new(out).lines() {
                            oracle::report::alive();
                            match l {
                                Ok(l) => {
                                    if tx.send(l).is_err() {
                                        break;
                                    }
                                }
                                Err(_) => break,
                            }
                        }
                    });
                    let mut cur = first;
                    let mut base = cpu_ticks_and_asleep(ch.id()).map(|m| m.0).unwrap_or(0);
                    let mut idle_since: Option<(u64, u32)> = None;
                    let mut done = false;
                    loop {
                        match rx.recv_timeout(Duration::from_millis(500)) {
                            Ok(l) => {
                                idle_since = None;
                                if let Some(i) = l.strip_prefix("S ") {
                                    cur = i.parse().unwrap();
                                    if cur % 64 == 0 {
                                        base = cpu_ticks_and_asleep(ch.id()).map(|m| m.0).unwrap_or(base);
                                    }
                                } else if l == "A" {
                                    acc[0] += 1;
                                } else if l == "R" {
                                    acc[1] += 1;
                                } else if l == "DONE" {
                                    done = true;
                                } else if l.starts_with("P ") || l.starts_with("T ") {
                                    let mut it = l[2..].splitn(2, ' ');
                                    let i: u64 = it.next().unwrap().parse().unwrap();
                                    res.push((i, it.next().unwrap_or("").to_string()));
                                }
                            }
                            Err(RecvTimeoutError::Disconnected) => break,
                            Err(RecvTimeoutError::Timeout) => {
                                let Some((t, asleep)) = cpu_ticks_and_asleep(ch.id()) else { continue };
                                // 100 ticks are a second of CPU time
                                if t.saturating_sub(base) > 6000 {
                                    res.push((cur, "no answer after 60 s of CPU time".into()));
                                    let _ = ch.kill();
                                    break;
                                }
                                // All threads asleep and no CPU time used at all: nothing can wake them.
                                idle_since = match (asleep, idle_since) {
                                    (true, Some((t0, k))) if t0 == t => Some((t0, k + 1)),
                                    (true, _) => Some((t, 0)),
                                    _ => None,
                                };
                                if matches!(idle_since, Some((_, k)) if k > 30) {
                                    res.push((cur, "the process is blocked forever (deadlock)".into()));
                                    let _ = ch.kill();
                                    break;
                                }
                            }
                        }
                    }
                    let st = ch.wait().unwrap();
                    let _ = rd.join();
                    if done {
                        break;
                    }
                    use std::os::unix::process::ExitStatusExt;
                    match st.signal() {
                        Some(9) => {}
                        Some(s) => res.push((cur, format!("the process was killed by signal {s} (stack overflow or abort)"))),
                        None => note.push(format!("worker ended early: {st}")),
                    }
                    first = cur + 1;
                }
                (res, acc, note)
            })
        })
        .collect();
    for h in handles {
        let (res, acc, note) = h.join().unwrap();
        rep.count("accepted", acc[0]);
        rep.count("rejected", acc[1]);
        rep.inconclusive.extend(note);
        for (i, what) in res {
            let src = p03_input(seed, i);
            rep.violation(&format!("case:{i}"), format!("{what}\nsource ({} bytes):\n{}", src.len(), src.chars().take(3000).collect::<String>()));
        }
    }
    p03_growth(&mut rep);
    for i in 0..n {
        let s = p03_input(seed, i);
        rep.max("max_bytes", s.len() as u64);
        rep.case(&s, !s.is_empty());
        if i < 5 {
            rep.sample(s);
        }
        if i > 30_000 {
            break;
        }
    }
    rep.finish()
}

/// (head, repeated, tail): the cost per byte must not depend on how often the middle is repeated.
const PUMPS: &[(&str, &str, &str, &str)] = &[
    ("declarations", "", "color: red;\n", ""),
    ("declarations in a block", ".a {", "--x: calc(1px + 2px) \"s\";", "}"),
    ("blocks", "", ".a:hover, .b > c { x: y; }\n", ""),
    ("unclosed last block", "", ".a { x: y; } ", ".b {"),
    ("selector list", "", ".a, ", ".b { x: y; }"),
    ("selector without block", "", "a b ", ""),
    ("descendants", "", "div ", "{ x: y; }"),
    ("pseudo chain", "a", ":hover", " { x: y; }"),
    ("pseudo chain after declaration", "x: y; a", ":hover", " { x: y; }"),
    ("one value", "x:", " 1px", ";"),
    ("value without end", "x:", " 1px", ""),
    ("strings in a value", "x:", " \"a\"", ";"),
    ("one string", "x: \"", "ab ", "\";"),
    ("unclosed string", "x: \"", "ab ", ""),
    ("escapes", "x: ", "\\a", ";"),
    ("escapes in a string", "x: \"", "\\a", "\";"),
    ("comment", "/*", " *", "*/"),
    ("unclosed comment", "/*", " *", ""),
    ("comments", "", "/* c */", ""),
    ("comments then junk", "", "/* c */", "}"),
    ("whitespace", "", " \n\t", ""),
    ("whitespace before value", "x:", " ", "y;"),
    ("brackets in a row", "a", ":not(.b)", "{ x: y; }"),
    ("long brackets", ":is(", ".b, ", ".c) { x: y; }"),
    ("unclosed long bracket", ":is(", ".b, ", ""),
    ("attribute selectors", "a", "[b=\"c,d\"]", "{ x: y; }"),
    ("slashes", "x: a", "/", "b;"),
    ("dollars", "a[b", "$", "=c] { x: y; }"),
    ("at rules", "", "@media print { x: y; } ", ""),
    ("at rules in a block", ".a {", "@media print { x: y; } ", "}"),
    ("long condition", "@media ", "(a: b) and ", "(c) { x: y; }"),
    ("condition without block", "@media ", "(a: b) and ", ""),
    ("frames", "@keyframes a {", "from { x: y; } ", "}"),
    ("unclosed frames", "@keyframes a {", "from { x: y; } ", ""),
    ("open braces", "a ", "{ ", ""),
    ("close braces", "", "} ", ""),
    ("semicolons", "x: y", ";", ""),
    ("colons", "x", ":", ";"),
    ("commas", "a", ",", "{ x: y; }"),
    ("at signs", "", "@", ""),
    ("hyphens", "", "-", ": x;"),
    ("non-ascii", "x: ", "\u{65e5}\u{672c} ", ";"),
    ("key only", "", "abc", ""),
    ("current selectors", "", "&:hover ~ ", ".a { x: y; }"),
    ("escapes in a selector", ".a", "\\&", " { x: y; }"),
    ("strings in a selector", "a", "[b='&']", " { x: y; }"),
    ("comments in a selector", "a", " /* & */ b", " { x: y; }"),
    ("roots in a list", "", ":root.a, ", ".b { x: y; }"),
    ("blocks in a rule", "@media print {", " .a { x: y; } ", "}"),
    ("rules in blocks", "", ".a { x: y; @media print { @supports (a: b) { x: y; } } z: y; } ", ""),
    ("declarations and blocks", "@media print {", " x: y; .a { x: y; } ", "}"),
];

fn thread_cpu() -> f64 {
    extern "C" {
        fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
    }
    let mut ts = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}

fn p03_growth(rep: &mut Report) {
    for (name, head, mid, tail) in PUMPS {
        let cost = |bytes: usize, salt: usize| -> (f64, usize) {
            let src = format!("/*{salt}*/{head}{}{tail}", mid.repeat(bytes / mid.len()));
            let t = thread_cpu();
            let _ = guard(|| src.parse::<Sheet>().map_or(0, |m| m.to_style_str(Some("growth-0")).len() + m.to_style_str(None).len()));
            (thread_cpu() - t, src.len())
        };
        let run = |bytes: usize| (0..3).map(|k| { let (t, n) = cost(bytes, k); (t * 1e9 / n as f64, t) }).fold((f64::MAX, 0.0), |a, b| if b.0 < a.0 { b } else { a });
        let (small, _) = run(2_000);
        let (large, total) = run(48_000);
        rep.count("growth_families", 1);
        rep.max("max_ns_per_byte", large as u64);
        rep.max("max_growth_percent", (large / small.max(1.0) * 100.0) as u64);
        // 24 times the size: quadratic cost would be 24 times as much per byte
        if large > 8.0 * small.max(30.0) && total > 0.25 {
            rep.violation(&format!("growth:{name}"), format!(
                "cost per byte grows with the input: {small:.0} ns/byte at 2 kB, {large:.0} ns/byte at 48 kB ({total:.2} s)\ninput: {head:?} + {mid:?} repeated + {tail:?}"));
        }
        if std::env::var("VERIF_DEBUG").is_ok() {
            println!("growth {name}: {small:.0} {large:.0} ns/byte, {total:.3} s");
        }
    }
}

// ------------------------------------------------------------------ P04

/// Near-colliding texts: same length, one character apart, whitespace apart, prefix of each other…
fn p04_pool(r: &mut Rng, n: usize) -> Vec<(String, Option<Vec<Node>>)> {
    let mut out: BTreeMap<String, Option<Vec<Node>>> = BTreeMap::new();
    let prof = Profile { max_items: 3, big: 60, ..Profile::full() };
    while out.len() < n {
        let m = gen_model(r, &prof);
        let s = print(&m, r, 0);
        out.insert(s.clone(), Some(expect_tree(&m)));
        // spelling variants of the same meaning
        for t in [1, 2] {
            let v = print(&m, r, t);
            out.insert(v, Some(expect_tree(&m)));
        }
        // a one-character variant with another meaning
        let k = r.below(100_000);
        for d in 0..3 {
            let m2: Model = vec![Item::Block(
                vec![Sel::lit(&format!(".q{k}"))],
                vec![Body::Decl(Decl { key: "width".into(), val: format!("{}px", 100 + d) })],
            )];
            out.insert(print(&m2, r, 0), Some(expect_tree(&m2)));
        }
        // case variants, trailing junk (must stay an error), a prefix (usually an error)
        out.insert(format!("{s} }}"), None);
        out.insert(format!(".A{k} {{ color: RED; }}"), Some(vec![Node::Block(vec![format!(".A{k}")], vec![Node::Decl("color".into(), "RED".into())])]));
        out.insert(format!(".a{k} {{ color: red; }}"), Some(vec![Node::Block(vec![format!(".a{k}")], vec![Node::Decl("color".into(), "red".into())])]));
    }
    // long texts of equal length that differ in one place only
    for size in [40usize, 300, 1100, 5000, 20_000] {
        let n = size / 24;
        let k = r.below(100_000);
        let at = [0, n / 2, n.saturating_sub(1), r.below(n.max(1))];
        for variant in 0..5 {
            let decl = |i: usize| Decl {
                key: format!("--k{i:05}"),
                val: format!("v{:06}", if variant > 0 && at[variant - 1] == i { 900_000 + variant } else { k }),
            };
            let m: Model = vec![Item::Block(vec![Sel::lit(".long")], (0..n.max(1)).map(|i| Body::Decl(decl(i))).collect())];
            out.insert(print(&m, r, 0), Some(expect_tree(&m)));
        }
    }
    // the same characters in another order; whitespace, case and escapes that matter
    let one = |val: String| -> Model { vec![Item::Dangling(vec![Decl { key: "content".into(), val }])] };
    for _ in 0..3 {
        let (a, b) = (r.below(9000) + 1000, r.below(9000) + 1000);
        for v in [
            format!("{a} {b}"), format!("{b} {a}"), format!("\"{a} {b}\""), format!("\"{a}  {b}\""), format!("\"{a}\t{b}\""),
            format!("\"{a}\n{b}\""), format!("\"{a}\r\n{b}\""), format!("\" {a}{b}\""), format!("\"{a}{b} \""), format!("'{a} {b}'"),
            format!("\"x{a}\""), format!("\"X{a}\""), format!("\"\u{e9}{a}\""), format!("\"e\u{301}{a}\""), format!("\"/* {a} */\""), format!("\"/* {b} */\""),
        ] {
            let m = one(v);
            out.insert(print(&m, r, 0), Some(expect_tree(&m)));
        }
    }
    let mut v: Vec<_> = out.into_iter().collect();
    r.shuffle(&mut v);
    v
}

/// Texts that mean the same give the same CSS.
fn p04_cross(rep: &mut Report, round: usize, pool: &[(String, Option<Vec<Node>>)]) {
    let norm_css = |s: &Sheet| css::read(&s.to_style_str(Some("K"))).map(|m| css::show(&m)).unwrap_or_else(|e| e);
    let mut by: HashMap<&Vec<Node>, (usize, String)> = HashMap::new();
    for (i, (src, exp)) in pool.iter().enumerate() {
        let (Some(e), Ok(s)) = (exp, src.parse::<Sheet>()) else { continue };
        match by.get(e) {
            None => {
                by.insert(e, (i, norm_css(&s)));
                rep.count("meanings", 1);
            }
            Some((o, text)) => {
                rep.count("spelling_pairs", 1);
                if *text != norm_css(&s) {
                    rep.violation(&format!("case:{round}/{i}"), format!("two spellings of one sheet give different CSS\none:\n{}\nother:\n{src}", pool[*o].0));
                }
            }
        }
    }
}

/// Very many distinct texts, all on each of several threads, each in an order of its own; then some of them again.
fn p04_many(rep: &mut Report, seed: u64) {
    let n = rep.opts.n(200_000, 3_000_000);
    let threads = if rep.opts.thorough() { 2 } else { 6 };
    let base = Rng::derive(seed, "P04m", 0).below(1_000_000) as u64;
    let text = move |k: u64| {
        let (a, b) = (base + k / 7, k % 7);
        match k % 3 {
            0 => (format!("width: {a}{b}px;"), format!("{a}{b}px")),
            1 => (format!(".c{a} {{ width: {b}px; }}"), format!("{b}px")),
            _ => (format!(".c {{ content: \"{b} {a}\"; }}"), format!("\"{b} {a}\"")),
        }
    };
    let results: Vec<(u64, Vec<String>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    let mut r = Rng::derive(seed, "P04mt", t);
                    let mut bad = vec![];
                    let mut done = 0;
                    let step = [1u64, 3, 7, 9, 11, 13][t as usize % 6];
                    let off = r.below(n) as u64;
                    let ask = |k: u64, bad: &mut Vec<String>| {
                        oracle::report::alive();
                        let (t, want) = text(k);
                        let css = match guard(|| t.parse::<Sheet>()) {
                            Ok(Ok(s)) => s.to_style_str(Some("K")),
                            Ok(Err(e)) => format!("error: {e}"),
                            Err(e) => format!("panic: {e}"),
                        };
                        let sel = t.split(" {").next().filter(|m| m.starts_with('.')).unwrap_or("");
                        // each text is of one shape, so its value and its selector say which one it is
                        if !(css.contains(&format!(": {want};")) && css.contains(sel)) && bad.len() < 3 {
                            bad.push(format!("source: {t}\nemitted:\n{css}"));
                        }
                    };
                    for j in 0..n as u64 {
                        // some of the texts are skipped, some come again
                        let k = (off + j * step) % n as u64;
                        ask(k, &mut bad);
                        done += 1;
                        if j % 16 == 0 {
                            ask(r.below(n) as u64, &mut bad);
                            done += 1;
                        }
                    }
                    (done, bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    rep.max("distinct_texts_of_one_thread", n as u64);
    for (done, bad) in results {
        rep.count("answers_among_many_texts", done);
        for b in bad {
            if !rep.too_many() {
                rep.violation("many", b);
            }
        }
    }
}

pub fn p04(o: Opts) -> i32 {
    let (seed, rounds) = (o.seed, o.n(10, 250));
    let mut rep = Report::new(
        o,
        "pools of near-colliding texts (same text, one character apart, other spelling, invalid extension) are parsed many times in random order by 8 threads at once, between other texts, failures and drops; every answer is compared with the model of exactly that text and with the first answer; non-trivial: an answer obtained while at least one other thread was parsing; distinct by (text, thread, repetition)",
    );
    rep.require("repeat_answers", 5000);
    rep.require("overlapping_answers", 1000);
    for round in 0..rounds {
        if rep.too_many() {
            break;
        }
        let mut r = Rng::derive(seed, "P04", round as u64);
        let pool = p04_pool(&mut r, 260);
        let busy = std::sync::atomic::AtomicUsize::new(0);
        use std::sync::atomic::Ordering::SeqCst;
        let pool = &pool;
        let busy = &busy;
        let results = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8u64)
                .map(|t| {
                    let mut r = Rng::derive(seed, "P04t", round as u64 * 8 + t);
                    sc.spawn(move || {
                        let mut first: HashMap<usize, (Option<Sheet>, String)> = HashMap::new();
                        let mut errs = vec![];
                        let (mut repeats, mut overlap, mut total) = (0u64, 0u64, 0u64);
                        let mut keys = vec![];
                        for k in 0..600 {
                            oracle::report::alive();
                            let i = r.below(pool.len());
                            let (src, exp) = &pool[i];
                            let others = busy.fetch_add(1, SeqCst);
                            // sometimes through the other public entry
                            let got = guard(|| {
                                if k % 3 == 0 {
                                    let s: String = src.clone();
                                    s.parse::<Sheet>()
                                } else {
                                    src.as_str().parse::<Sheet>()
                                }
                            });
                            let others = others.max(busy.fetch_sub(1, SeqCst) - 1);
                            total += 1;
                            if others > 0 {
                                overlap += 1;
                                keys.push(format!("{round}/{t}/{k}/{i}"));
                            }
                            let got = match got {
                                Err(p) => {
                                    errs.push((i, format!("parser panicked: {p}")));
                                    continue;
                                }
                                Ok(g) => g,
                            };
                            match (&got, exp) {
                                (Ok(_), None) => errs.push((i, "invalid text accepted".into())),
                                (Err(_), Some(_)) => errs.push((i, "valid text rejected".into())),
                                (Ok(s), Some(e)) => {
                                    let tree = conv::tree(s);
                                    if tree != *e {
                                        errs.push((i, format!("answer does not match the text: {}", diff(e, &tree))));
                                    }
                                }
                                _ => {}
                            }
                            let css = got.as_ref().map(|m| m.to_style_str(Some("K"))).unwrap_or_default();
                            match first.get(&i) {
                                None => {
                                    first.insert(i, (got.ok(), css));
                                }
                                Some((s0, css0)) => {
                                    repeats += 1;
                                    if *s0 != got.ok() || *css0 != css {
                                        errs.push((i, "two parses of the same text differ".into()));
                                    }
                                }
                            }
                        }
                        (errs, repeats, overlap, total, keys)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        rep.count("texts", pool.len() as u64);
        if round == 0 {
            rep.sample(pool[0].0.clone());
            rep.sample(pool[1].0.clone());
        }
        for (errs, rp, ov, total, keys) in results {
            rep.count("repeat_answers", rp);
            rep.count("overlapping_answers", ov);
            for k in &keys {
                rep.case(k, true);
            }
            rep.evaluations += total - keys.len() as u64;
            for (i, e) in errs {
                if !rep.too_many() {
                    rep.violation(&format!("case:{round}/{i}"), format!("{e}\nsource:\n{}", pool[i].0));
                }
            }
        }
        p04_cross(&mut rep, round, pool);
    }
    p04_many(&mut rep, seed);
    rep.finish()
}
