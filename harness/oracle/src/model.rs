//! Random stylesheets as *meaning* (not text): a printer turns a model into one of its many
//! source spellings, and `expect_*` states what stylist documents the sheet to mean.
use crate::css::{norm, Ev};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub key: String,
    pub val: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Lit(String),
    /// `&`
    Amp,
    /// `:root`
    Root,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sel(pub Vec<Piece>);

impl Sel {
    pub fn lit(s: &str) -> Sel {
        Sel(vec![Piece::Lit(s.to_string())])
    }
    pub fn src(&self) -> String {
        self.with("&", ":root")
    }
    fn with(&self, amp: &str, root: &str) -> String {
        self.0
            .iter()
            .map(|p| match p {
                Piece::Lit(s) => s.as_str(),
                Piece::Amp => amp,
                Piece::Root => root,
            })
            .collect()
    }
    fn has_current(&self) -> bool {
        self.0.iter().any(|p| !matches!(p, Piece::Lit(_)))
    }
    /// The documented scoping rules for a scoped style.
    pub fn scoped(&self, class: &str) -> String {
        let cls = format!(".{class}");
        if self.has_current() {
            self.with(&cls, &cls)
        } else {
            let s = self.src();
            if s.starts_with(':') {
                format!("{cls}{s}")
            } else {
                format!("{cls} {s}")
            }
        }
    }
    /// The documented rule for a global style: `&` means `:root`.
    pub fn global(&self) -> String {
        self.with(":root", ":root")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct At {
    /// `@media`, `@supports` or `@container`
    pub tag: &'static str,
    pub cond: String,
}

impl At {
    pub fn text(&self) -> String {
        format!("{} {}", self.tag, self.cond)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Decl(Decl),
    At(At, Vec<Body>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// Declarations outside any block.
    Dangling(Vec<Decl>),
    Block(Vec<Sel>, Vec<Body>),
    At(At, Vec<Item>),
    Keyframes(String, Vec<(Vec<String>, Vec<Decl>)>),
}

pub type Model = Vec<Item>;

/// Shape of a sheet, as compared with a parsed AST.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Decl(String, String),
    /// selectors (empty: the current scope)
    Block(Vec<String>, Vec<Node>),
    At(String, Vec<Node>),
}

impl Node {
    pub fn show(&self, ind: usize, out: &mut String) {
        let pad = "  ".repeat(ind);
        match self {
            Node::Decl(k, v) => out.push_str(&format!("{pad}{k}: {v};\n")),
            Node::Block(s, c) => {
                out.push_str(&format!("{pad}block <{}>\n", s.join(" , ")));
                c.iter().for_each(|m| m.show(ind + 1, out));
            }
            Node::At(s, c) => {
                out.push_str(&format!("{pad}at <{s}>\n"));
                c.iter().for_each(|m| m.show(ind + 1, out));
            }
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Node::Decl(..) => 0,
            Node::Block(_, c) | Node::At(_, c) => {
                1 + c.iter().map(Node::depth).max().unwrap_or(0)
            }
        }
    }
}

pub fn show_nodes(n: &[Node]) -> String {
    let mut s = String::new();
    n.iter().for_each(|m| m.show(0, &mut s));
    s
}

/// Adjacent current-scope blocks mean the same as one.
pub fn merge_dangling(nodes: Vec<Node>) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for n in nodes {
        let n = match n {
            Node::At(c, k) => Node::At(c, merge_dangling(k)),
            n => n,
        };
        match (out.last_mut(), n) {
            (Some(Node::Block(s, c)), Node::Block(s2, c2)) if s.is_empty() && s2.is_empty() => {
                c.extend(c2)
            }
            (_, n) => out.push(n),
        }
    }
    out
}

pub fn expect_tree(m: &[Item]) -> Vec<Node> {
    fn decl(d: &Decl) -> Node {
        Node::Decl(norm(&d.key, false), norm(&d.val, false))
    }
    fn body(b: &[Body]) -> Vec<Node> {
        b.iter()
            .map(|m| match m {
                Body::Decl(d) => decl(d),
                Body::At(a, b) => Node::At(norm(&a.text(), false), body(b)),
            })
            .collect()
    }
    merge_dangling(
        m.iter()
            .map(|i| match i {
                Item::Dangling(d) => Node::Block(vec![], d.iter().map(decl).collect()),
                Item::Block(s, b) => {
                    Node::Block(s.iter().map(|m| norm(&m.src(), true)).collect(), body(b))
                }
                Item::At(a, c) => Node::At(norm(&a.text(), false), expect_tree(c)),
                Item::Keyframes(n, f) => Node::At(
                    norm(&format!("@keyframes {n}"), false),
                    f.iter()
                        .map(|(s, d)| {
                            Node::At(norm(&s.join(","), true), d.iter().map(decl).collect())
                        })
                        .collect(),
                ),
            })
            .collect(),
    )
}

/// What emitted CSS has to mean, in order. `class`: `Some` for a scoped style.
pub fn expect_css(m: &[Item], class: Option<&str>) -> Vec<Ev> {
    let mut out = vec![];
    items(m, class, &mut vec![], &mut out);
    return out;

    fn decl(d: &Decl, at: &[String], sels: &[String]) -> Ev {
        Ev::Decl {
            at: at.to_vec(),
            sels: sels.to_vec(),
            key: norm(&d.key, false),
            val: norm(&d.val, false),
        }
    }
    fn bodies(b: &[Body], at: &mut Vec<String>, sels: &[String], out: &mut Vec<Ev>) {
        for m in b {
            match m {
                Body::Decl(d) => out.push(decl(d, at, sels)),
                Body::At(a, b) => {
                    at.push(norm(&a.text(), false));
                    bodies(b, at, sels, out);
                    at.pop();
                }
            }
        }
    }
    fn items(m: &[Item], class: Option<&str>, at: &mut Vec<String>, out: &mut Vec<Ev>) {
        for i in m {
            match i {
                Item::Dangling(d) => {
                    let s = class.map(|c| format!(".{c}")).unwrap_or_else(|| ":root".into());
                    out.extend(d.iter().map(|d| decl(d, at, std::slice::from_ref(&s))));
                }
                Item::Block(s, b) => {
                    let s: Vec<String> = s
                        .iter()
                        .map(|s| match class {
                            Some(c) => norm(&s.scoped(c), true),
                            None => norm(&s.global(), true),
                        })
                        .collect();
                    bodies(b, at, &s, out);
                }
                Item::At(a, c) => {
                    at.push(norm(&a.text(), false));
                    items(c, class, at, out);
                    at.pop();
                }
                Item::Keyframes(n, f) => {
                    let name = norm(&format!("@keyframes {n}"), false);
                    out.push(Ev::Keyframes { at: at.clone(), name: name.clone() });
                    at.push(name);
                    for (s, d) in f {
                        let s: Vec<String> = s.iter().map(|m| norm(m, true)).collect();
                        out.extend(d.iter().map(|d| decl(d, at, &s)));
                    }
                    at.pop();
                }
            }
        }
    }
}

// ---------------------------------------------------------------- generation

/// What a generated sheet may contain.
#[derive(Clone, Debug)]
pub struct Profile {
    pub max_items: usize,
    pub max_depth: usize,
    pub keyframes: bool,
    pub container: bool,
    pub nested_at: bool,
    pub empties: bool,
    pub strings: bool,
    pub non_ascii: bool,
    /// `$`, `{`, `}` inside strings
    pub brace_strings: bool,
    /// selectors of plain class/tag form only
    pub plain_selectors: bool,
    /// commas inside parentheses of a selector, `&` in strings, single-quoted strings, `$=`
    pub tricky_selectors: bool,
    pub single_quotes: bool,
    /// escaped characters outside of strings
    pub escapes: bool,
    /// one in so many sheets is large in one dimension (0: none)
    pub big: usize,
}

impl Profile {
    pub fn full() -> Self {
        Profile {
            max_items: 6,
            max_depth: 4,
            keyframes: true,
            container: true,
            nested_at: true,
            empties: true,
            strings: true,
            non_ascii: true,
            brace_strings: true,
            plain_selectors: false,
            tricky_selectors: true,
            single_quotes: true,
            escapes: true,
            big: 25,
        }
    }
}

const KEYS: &[&str] = &[
    "color", "background-color", "width", "height", "margin", "padding-left", "border", "display",
    "font-family", "content", "transition", "transform", "grid-template-areas", "z-index", "filter",
    "-webkit-appearance", "-moz-osx-font-smoothing", "--main-color", "--x", "--a_b-9", "--X1y",
    "animation", "box-shadow", "_zoom", "src", "a", "line-height", "inset-inline-start",
];
const KEYS_NA: &[&str] = &["--цвет", "größe", "--色"];

const WORDS: &[&str] = &[
    "red", "solid", "auto", "none", "inherit", "flex", "inline-block", "ease-in-out", "BLACK",
    "currentColor", "-apple-system", "all", "from", "to", "media", "root", "sans-serif", "x",
    "important", "url", "not", "and",
];
const NUMS: &[&str] = &[
    "0", "1", "-1", "+2", "10px", "1.5em", ".5rem", "-0.25vh", "100%", "1fr", "2e3", "360deg",
    "0.3s", "200ms", "#fff", "#d0d0d9", "#00000080", "1e-7", "99999999999", "U+0025-00FF",
];
const FUNCS: &[&str] = &[
    "rgba(0, 0, 0, 0.5)",
    "rgb(1 2 3 / 40%)",
    "calc(100% - (2px + 3em) * 2)",
    "var(--x)",
    "var(--x, 10px)",
    "var(--a,var(--b,  1px))",
    "url(https://example.com/a.png?x=1&y=2)",
    "url(/a/b/c.svg#frag)",
    "url( img.png )",
    "translate(-50%, -50%) rotate(45deg)",
    "minmax(1rem, 1fr)",
    "repeat(auto-fill, minmax(10px, 1fr))",
    "linear-gradient(to right, red 0%, blue 100%)",
    "cubic-bezier(.17,.67,.83,.67)",
    "env(safe-area-inset-top)",
    "attr(data-x)",
    "min(1px,2px)",
    "[full-start] 1fr [full-end]",
    "alpha(opacity=50)",
    "fn()",
    "url(data:image/png;base64,iVBORw0KGgo=)",
    "url(data:image/svg+xml;charset=utf8,%3Csvg%20a=%221%22%3E)",
    "fn([a](b)[c])",
    "calc(1px + (2px * (3 - var(--x, calc(1px)))))",
    "url()",
    "format(\"woff2\")",
    "image-set(\"a.png\" 1x, 'b.png' 2x)",
    "counter(c, upper-roman)",
    "var(--empty,)",
    "env(--x, \")\")",
];
/// Escapes and characters beyond ASCII that are not whitespace in CSS.
const WORDS_ESC: &[&str] = &[
    "\\2014", "a\\ ", "x\\;y", "v\\}", "\\{", "\\31 2", "q\\\"", "p\\(q", "\\)", "\\]", "\\\\", "c\\,d", "m\\:n", "\\&", "s\\/*", "\\$\\{a\\}", "e\\'",
];
const WORDS_WIDE: &[&str] = &["nb\u{a0}", "\u{3000}x", "zw\u{200b}", "\u{feff}b", "ls\u{2028}", "\u{85}n"];
const COMPOUND_ESC: &[&str] = &[
    ".w-1\\/2", ".a\\&b", ".p-\\[1px\\]", ".\\{x\\}", ".a\\,b", ".\\31 23", ".x\\ ", ".a\\;b", ".q\\:root", ".k\\\"", ".\\@md", ".r\\(", ".b\\\\", "#\\#id", ".s\\'",
    ".\\:root", ".e\\ .f\\ ", "[a\\]b]", ".\\/\\*c",
];
const COMPOUND_WIDE: &[&str] = &[".nb\u{a0}", "#\u{3000}x", ".zw\u{200b}", ".\u{2028}"];
const STR_BITS: &[&str] = &[
    "a", "B", " ", "  ", ";", ":", ",", "&", ":root", "@media", "//", "/*", "*/", "'", "\\\"",
    "\\\\", "\\a ", "<", ">", "(", ")", "[", "]", "#", ".x", "!", "=", "%", "-", "\t", "</style", "--",
];
const STR_BRACE: &[&str] = &["{", "}", "};", "{}", "$", "${", "${x}", "\\{"];
const STR_NA: &[&str] = &["é", "日本", "\u{1F980}", "\u{a0}", "ß"];

pub fn gen_string(r: &mut Rng, p: &Profile) -> String {
    let mut s = String::from("\"");
    for _ in 0..r.below(7) {
        let k = r.below(10);
        if k < 2 && p.brace_strings {
            s.push_str(r.pick(STR_BRACE));
        } else if k == 2 && p.non_ascii {
            s.push_str(r.pick(STR_NA));
        } else {
            s.push_str(r.pick(STR_BITS));
        }
    }
    s.push('"');
    if p.single_quotes && r.chance(1, 4) {
        let inner = s[1..s.len() - 1].replace("\\\"", "\"").replace('\'', "\\'");
        return format!("'{inner}'");
    }
    s
}

pub fn gen_value(r: &mut Rng, p: &Profile) -> String {
    let n = 1 + r.below(3) + if r.chance(1, 8) { r.below(6) } else { 0 };
    let mut s = String::new();
    for i in 0..n {
        let part = match r.below(10) {
            0 if p.escapes && r.chance(1, 6) => r.pick(WORDS_ESC).to_string(),
            1 if p.escapes && p.non_ascii && r.chance(1, 12) => r.pick(WORDS_WIDE).to_string(),
            0..=2 => r.pick(WORDS).to_string(),
            3..=5 => r.pick(NUMS).to_string(),
            6 | 7 => r.pick(FUNCS).to_string(),
            8 if p.strings => gen_string(r, p),
            9 if p.non_ascii && r.chance(1, 3) => "ключ日本".to_string(),
            9 => format!("v{}", r.u64() % 100_000),
            _ => format!("{}px", r.below(2000)),
        };
        if i > 0 {
            let quoted = part.starts_with('"') || part.starts_with('\'');
            let sep = match r.below(8) {
                0 => ", ",
                1 => ",",
                2 if !quoted => " / ",
                3 if !quoted && !part.starts_with(['*', '/']) => "/",
                4 => "  ",
                5 => "\n        ",
                _ => " ",
            };
            s.push_str(sep);
        }
        s.push_str(&part);
    }
    if r.chance(1, 10) {
        s.push_str(r.pick(&[" !important", "!important", " ! important"]));
    }
    s
}

pub fn gen_decl(r: &mut Rng, p: &Profile) -> Decl {
    let key = if p.non_ascii && r.chance(1, 20) {
        r.pick(KEYS_NA).to_string()
    } else if r.chance(1, 6) {
        format!("--p{}", r.below(1000))
    } else {
        r.pick(KEYS).to_string()
    };
    Decl { key, val: gen_value(r, p) }
}

pub fn gen_decls(r: &mut Rng, p: &Profile, lo: usize, hi: usize) -> Vec<Decl> {
    (0..r.range(lo, hi)).map(|_| gen_decl(r, p)).collect()
}

const COMPOUND: &[&str] = &[
    ".a", ".b", ".nested", ".with-class", "div", "span", "h1", "input", "#id", ".a.b", "div.c#d",
    "*", ".sm\\:flex", ".-x", "._y", "svg|a", "button[disabled]", "[data-x]", "[data-x=y]",
    "[a~=b]", "li",
];
const PSEUDO: &[&str] = &[
    ":hover", ":focus-visible", "::before", "::after", ":nth-child(2n + 1)", ":not(.z)",
    ":first-child", ":lang(en)", "::-webkit-scrollbar", ":nth-of-type(odd)", ":not([a])",
    "::part(label x)", "::slotted(span)", ":dir(rtl)", ":host",
];
const TRICKY: &[&str] = &[
    ":is(.p, .q)", ":not(.p,.q)", ":where(h1, h2 > a, .c:is(x, y))", "[href$=\".pdf\"]",
    "[href=\"?x&y\"]", "[t=\":root\"]", "[t='a,b']", "[t='{;}']", "[t=\"}\"]", ":is(.a) ",
    "[a=\"x,y\"]", "[a=b i]", "[a=\"b\" s]", ":has(> img, + .x)", ":nth-child(2n+1 of .x, .y)", ":not(:is(:hover, :focus), [a])",
    "::slotted(.a, .b)", "[lang|=en]",
];
const COMB: &[&str] = &[" ", " > ", ">", " + ", "~", " ~ ", "  "];

fn compound(r: &mut Rng, p: &Profile) -> String {
    if p.plain_selectors {
        return r.pick(&[".a", ".b", ".nested", "div", "span", "h1", "#id", ".with-class", "*"]).to_string();
    }
    let mut s = match r.below(12) {
        0 if p.strings => {
            let q = loop {
                let q = gen_string(r, p);
                if p.tricky_selectors || !(q.contains('&') || q.contains(":root")) {
                    break q;
                }
            };
            format!("[{}{}{}]", r.pick(&["title", "data-q", "placeholder"]), r.pick(&["=", "~=", "^=", "*=", "|="]), q)
        }
        1 if p.non_ascii => r.pick(&[".é", "#日本", ".ß-1"]).to_string(),
        2 => format!(".c{}", r.below(500)),
        3 if p.escapes && r.chance(1, 2) => r.pick(COMPOUND_ESC).to_string(),
        4 if p.escapes && p.non_ascii && r.chance(1, 6) => r.pick(COMPOUND_WIDE).to_string(),
        _ => r.pick(COMPOUND).to_string(),
    };
    if p.tricky_selectors && r.chance(1, 6) {
        s.push_str(r.pick(TRICKY).trim());
    }
    if r.chance(1, 4) {
        s.push_str(r.pick(PSEUDO));
    }
    s
}

pub fn gen_sel(r: &mut Rng, p: &Profile) -> Sel {
    let mut v: Vec<Piece> = vec![];
    let lit = |s: String, v: &mut Vec<Piece>| {
        if let Some(Piece::Lit(l)) = v.last_mut() {
            l.push_str(&s);
        } else {
            v.push(Piece::Lit(s));
        }
    };
    match r.below(12) {
        0..=3 => lit(compound(r, p), &mut v),
        4 | 5 => {
            v.push(Piece::Amp);
            match r.below(4) {
                0 => {}
                1 => lit(r.pick(&[".big", "#x", "[open]", "-suffix", "__el"]).into(), &mut v),
                _ => lit(r.pick(PSEUDO).into(), &mut v),
            }
        }
        6 => {
            v.push(Piece::Root);
            if r.chance(1, 2) {
                lit(r.pick(&[".big", ":hover", "[dir=rtl]", "::before"]).into(), &mut v);
            }
        }
        7 => lit(r.pick(PSEUDO).into(), &mut v),
        8 => {
            // current selector that is not the first compound
            lit(format!("{} ", compound(r, p)), &mut v);
            v.push(if r.chance(1, 4) { Piece::Root } else { Piece::Amp });
            if r.chance(1, 2) {
                lit(r.pick(&[".big", ":hover"]).into(), &mut v);
            }
        }
        9 => lit(format!("{}{}", r.pick(&["> ", "+ ", "~ ", ">"]), compound(r, p)), &mut v),
        10 if p.tricky_selectors => lit(r.pick(TRICKY).trim().into(), &mut v),
        _ => {
            v.push(Piece::Amp);
            lit(r.pick(&[" + ", " > ", "~", " "]).into(), &mut v);
            if r.chance(1, 2) {
                v.push(Piece::Amp);
            } else {
                lit(compound(r, p), &mut v);
            }
        }
    }
    for _ in 0..r.below(3) {
        let c = r.pick(COMB).to_string();
        let k = compound(r, p);
        lit(format!("{c}{k}"), &mut v);
    }
    Sel(v)
}

pub fn gen_at(r: &mut Rng, p: &Profile) -> At {
    let tag = match r.below(if p.container { 3 } else { 2 }) {
        0 => "@media",
        1 => "@supports",
        _ => "@container",
    };
    let cond = match tag {
        "@media" => match r.below(9) {
            0 => "print".into(),
            1 => "screen and (orientation: landscape)".into(),
            2 => "(min-width:100px) and (max-width :  200px)".into(),
            3 => "not all and (monochrome)".into(),
            4 => "screen, print and (color)".into(),
            5 => "(400px <= width <= 700px)".into(),
            6 => "only screen\n  and (min-resolution: 1.5dppx)".into(),
            7 => "(aspect-ratio: 16/9)".into(),
            _ => format!("screen and (max-width: {}px)", r.below(3000)),
        },
        "@supports" => match r.below(5) {
            0 => "(display: grid)".into(),
            1 => "not ((text-align-last: justify) or (-moz-text-align-last: justify))".into(),
            2 => "(--css: variables)".into(),
            3 => "selector(:focus-visible)".into(),
            _ => format!("(width: {}px)", r.below(3000)),
        },
        _ => match r.below(3) {
            0 => "(max-width: 650px)".into(),
            1 => "sidebar (min-width: 400px)".into(),
            _ => format!("card (inline-size > {}em)", r.below(300)),
        },
    };
    At { tag, cond }
}

fn gen_body(r: &mut Rng, p: &Profile, depth: usize) -> Vec<Body> {
    let n = if p.empties && r.chance(1, 12) { 0 } else { r.range(1, 4) };
    (0..n)
        .map(|_| {
            if p.nested_at && depth < p.max_depth && r.chance(1, 5) {
                Body::At(gen_at(r, p), gen_body(r, p, depth + 1))
            } else {
                Body::Decl(gen_decl(r, p))
            }
        })
        .collect()
}

fn gen_items(r: &mut Rng, p: &Profile, depth: usize, n: usize) -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    for _ in 0..n {
        let k = r.below(20);
        let it = if k < 5 {
            if matches!(out.last(), Some(Item::Dangling(_))) {
                continue;
            }
            Item::Dangling(gen_decls(r, p, 1, 4))
        } else if k < 14 {
            let ns = 1 + if r.chance(1, 3) { r.range(1, 3) } else { 0 };
            Item::Block((0..ns).map(|_| gen_sel(r, p)).collect(), gen_body(r, p, depth + 1))
        } else if k < 18 && depth < p.max_depth {
            let a = gen_at(r, p);
            let m = if p.empties && r.chance(1, 10) { 0 } else { r.range(1, 3) };
            Item::At(a, gen_items(r, p, depth + 1, m))
        } else if p.keyframes {
            let name = format!("{}{}", r.pick(&["move", "fade-in", "spin_", "--k", "é"]), r.below(100));
            let name = if p.non_ascii { name } else { name.replace('é', "e") };
            let nf = if p.empties && r.chance(1, 8) { 0 } else { r.range(1, 3) };
            let frames = (0..nf)
                .map(|_| {
                    let s: Vec<String> = (0..1 + r.below(2) * r.below(3))
                        .map(|_| match r.below(4) {
                            0 => "from".to_string(),
                            1 => "to".to_string(),
                            2 => format!("{}%", r.below(101)),
                            _ => format!("{}.5%", r.below(100)),
                        })
                        .collect();
                    let lo = if p.empties && r.chance(1, 10) { 0 } else { 1 };
                    (s, gen_decls(r, p, lo, lo * 3))
                })
                .collect();
            Item::Keyframes(name, frames)
        } else {
            Item::Block(vec![gen_sel(r, p)], gen_body(r, p, depth + 1))
        };
        out.push(it);
    }
    out
}

pub fn gen_model(r: &mut Rng, p: &Profile) -> Model {
    let n = match r.below(40) {
        0 => 0,
        1 => p.max_items * 8,
        _ => r.range(1, p.max_items),
    };
    let mut m = gen_items(r, p, 0, n);
    if p.big > 0 && r.chance(1, p.big) {
        inflate(r, p, &mut m);
    }
    m
}

/// One more item that is far larger in one dimension than sheets usually are.
fn inflate(r: &mut Rng, p: &Profile, m: &mut Model) {
    let letters = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect() };
    let sel = |r: &mut Rng| vec![Sel::lit(&format!(".big{}", r.below(1000)))];
    let d = |key: String, val: String| Body::Decl(Decl { key, val });
    let it = match r.below(12) {
        0 => {
            let n = r.range(100, 400);
            Item::Block(sel(r), (0..n).map(|_| Body::Decl(gen_decl(r, p))).collect())
        }
        1 => {
            let n = r.range(20, 150);
            Item::Block((0..n).map(|_| gen_sel(r, p)).collect(), gen_body(r, p, p.max_depth))
        }
        2 => {
            let n = r.range(100, 1500);
            let v: Vec<String> = (0..n).map(|_| format!("{}px", r.below(9999))).collect();
            let sep = *r.pick_of(&[" ", ", ", ","]);
            Item::Block(sel(r), vec![d("grid-template".into(), v.join(sep)), Body::Decl(gen_decl(r, p))])
        }
        3 if p.strings => {
            let n = r.range(200, 5000);
            let mut s = String::from("\"");
            while s.len() < n {
                let q = gen_string(r, &Profile { single_quotes: false, ..p.clone() });
                s.push_str(&q[1..q.len() - 1]);
                s.push('x');
            }
            s.push('"');
            Item::Block(sel(r), vec![d("content".into(), s), Body::Decl(gen_decl(r, p))])
        }
        4 => {
            let n = *r.pick_of(&[120, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1025, 3000]);
            let w = letters(r, n);
            match r.below(4) {
                0 => Item::Block(sel(r), vec![d(format!("--{w}"), "1px".into()), Body::Decl(gen_decl(r, p))]),
                1 => Item::Block(vec![Sel::lit(&format!(".{w}"))], vec![Body::Decl(gen_decl(r, p))]),
                2 => Item::Block(sel(r), vec![d("color".into(), w), Body::Decl(gen_decl(r, p))]),
                _ if p.keyframes => Item::Keyframes(w, vec![(vec!["from".into()], vec![gen_decl(r, p)])]),
                _ => Item::Block(vec![Sel::lit(&format!("#{w}"))], vec![Body::Decl(gen_decl(r, p))]),
            }
        }
        5 => {
            let mut it = Item::Block(sel(r), vec![Body::Decl(gen_decl(r, p))]);
            for _ in 0..r.range(5, 40) {
                let mut v = vec![it];
                if r.chance(1, 4) {
                    v.push(Item::Block(sel(r), vec![Body::Decl(gen_decl(r, p))]));
                }
                it = Item::At(gen_at(r, p), v);
            }
            it
        }
        6 if p.nested_at => {
            let mut b = vec![Body::Decl(gen_decl(r, p))];
            for _ in 0..r.range(5, 40) {
                b = vec![Body::At(gen_at(r, p), b)];
                if r.chance(1, 4) {
                    b.push(Body::Decl(gen_decl(r, p)));
                }
            }
            Item::Block(sel(r), b)
        }
        7 if p.keyframes => {
            let n = r.range(30, 200);
            Item::Keyframes("many".into(), (0..n).map(|k| (vec![format!("{k}.{}%", r.below(10))], gen_decls(r, p, 1, 2))).collect())
        }
        8 => {
            let n = r.range(40, 250);
            m.extend(gen_items(r, p, p.max_depth, n));
            return;
        }
        9 => {
            let n = r.range(10, 100);
            let v: Vec<String> = (0..n).map(|_| compound(r, p)).collect();
            Item::Block(vec![Sel::lit(&v.join(" > "))], vec![Body::Decl(gen_decl(r, p))])
        }
        10 => {
            let n = r.range(20, 200);
            let v: Vec<String> = (0..n).map(|_| format!("(max-width: {}px)", r.below(9999))).collect();
            let sep = *r.pick_of(&[" and ", ", "]);
            Item::At(At { tag: "@media", cond: v.join(sep) }, vec![Item::Block(sel(r), vec![Body::Decl(gen_decl(r, p))])])
        }
        _ => {
            let n = r.range(10, 60);
            let mut v = String::from("1px");
            for _ in 0..n {
                v = format!("calc({v} + {}px)", r.below(99));
            }
            Item::Block(sel(r), vec![d("width".into(), v), Body::Decl(gen_decl(r, p))])
        }
    };
    let k = r.below(m.len() + 1);
    m.insert(k, it);
}

pub fn count_decls(m: &[Item]) -> usize {
    fn b(v: &[Body]) -> usize {
        v.iter()
            .map(|m| match m {
                Body::Decl(_) => 1,
                Body::At(_, v) => b(v),
            })
            .sum()
    }
    m.iter()
        .map(|i| match i {
            Item::Dangling(d) => d.len(),
            Item::Block(_, v) => b(v),
            Item::At(_, v) => count_decls(v),
            Item::Keyframes(_, f) => f.iter().map(|f| f.1.len()).sum(),
        })
        .sum()
}

// ---------------------------------------------------------------- printing

/// One source spelling of a model. `trivia` 0: canonical; 1: random whitespace; 2: comments too.
pub struct Printer<'a> {
    pub r: &'a mut Rng,
    pub trivia: usize,
    pub out: String,
}

const WS: &[&str] = &["", "", " ", " ", "\n", "\n    ", "\t", "\r\n", "  ", " \n\n\t", "\u{c}"];
const CMT: &[&str] = &[
    "/**/", "/* c */", "/* ; */", "/* } { */", "/* \" */", "/* ' */", "/***/", "/* ** * / */",
    "/* // */", "/* @media x { */", "/*/ */", "/* /* */", "/* é日本 */", "/* a: b; */", "/* , & :root */",
    "/*\n * multi\n */", "/****/",
];

impl Printer<'_> {
    fn ws(&mut self, dflt: &str) {
        if self.trivia == 0 {
            self.out.push_str(dflt);
            return;
        }
        let s = self.r.pick(WS);
        self.out.push_str(s);
        if self.r.chance(1, 4000) {
            let n = self.r.range(200, 4000);
            let s = *self.r.pick_of(&[" ", "\n", "\t", "/", "*", "a: b; ", "}", "\""]);
            match s.trim() {
                "" => self.out.push_str(&s.repeat(n)),
                _ if self.trivia > 1 => self.out.push_str(&format!("/*{} */", s.repeat(n / s.len()))),
                _ => {}
            }
        }
        if self.trivia > 1 && self.r.chance(1, 5) {
            for _ in 0..self.r.range(1, 2) {
                let c = self.r.pick(CMT);
                self.out.push_str(c);
                let s = self.r.pick(WS);
                self.out.push_str(s);
            }
        }
    }
    fn decl(&mut self, d: &Decl) {
        self.out.push_str(&d.key);
        self.ws("");
        self.out.push(':');
        self.ws(" ");
        self.val(&d.val);
        self.ws("");
    }

    /// A value, selector or condition, with comments where it has whitespace.
    fn val(&mut self, v: &str) {
        // the content of url() is no place for comments, and the whitespace after an escape belongs to it
        if self.trivia < 2 || v.contains('\\') || v.contains("url(") || !self.r.chance(1, 6) {
            return self.out.push_str(v);
        }
        let mut q = None;
        for c in v.chars() {
            self.out.push(c);
            match (q, c) {
                (None, '"' | '\'') => q = Some(c),
                (Some(m), _) if m == c => q = None,
                (None, ' ' | '\n') if self.r.chance(1, 2) => {
                    let c = self.r.pick(CMT);
                    self.out.push_str(c);
                }
                _ => {}
            }
        }
    }

    fn decls(&mut self, d: &[Decl], must_end: bool) {
        for (i, m) in d.iter().enumerate() {
            self.ws("\n");
            self.decl(m);
            if must_end || i + 1 < d.len() || self.trivia == 0 || self.r.chance(2, 3) {
                self.out.push(';');
            }
        }
        self.ws("\n");
    }

    fn body(&mut self, b: &[Body]) {
        for (i, m) in b.iter().enumerate() {
            self.ws("\n");
            match m {
                Body::Decl(d) => {
                    self.decl(d);
                    if i + 1 < b.len() || self.trivia == 0 || self.r.chance(2, 3) {
                        self.out.push(';');
                    }
                }
                Body::At(a, b) => {
                    self.at(a);
                    self.body(b);
                    self.out.push('}');
                }
            }
        }
        self.ws("\n");
    }

    /// What separates the name of a rule from its condition.
    fn after_name(&mut self, cond: &str) {
        if self.trivia == 0 || !self.r.chance(1, 4) {
            self.out.push(' ');
        } else if self.trivia > 1 && self.r.chance(1, 3) {
            let c = self.r.pick(CMT);
            self.out.push_str(c);
        } else if !cond.starts_with('(') || self.r.chance(1, 2) {
            let s = self.r.pick(&["\n", "\t", "\r\n", "\u{c}"]);
            self.out.push_str(s);
        } else {
            return;
        }
        self.ws("");
    }

    fn at(&mut self, a: &At) {
        self.out.push_str(a.tag);
        self.after_name(&a.cond);
        self.val(&a.cond);
        self.ws(" ");
        self.out.push('{');
    }

    fn sels(&mut self, s: &[String]) {
        for (i, m) in s.iter().enumerate() {
            if i > 0 {
                self.out.push(',');
                self.ws(" ");
            }
            self.val(m);
            self.ws("");
        }
    }

    pub fn items(&mut self, m: &[Item]) {
        for i in m {
            self.ws("\n");
            match i {
                Item::Dangling(d) => self.decls(d, true),
                Item::Block(s, b) => {
                    let s: Vec<String> = s.iter().map(Sel::src).collect();
                    self.sels(&s);
                    self.ws(" ");
                    self.out.push('{');
                    self.body(b);
                    self.out.push('}');
                }
                Item::At(a, c) => {
                    self.at(a);
                    self.items(c);
                    self.out.push('}');
                }
                Item::Keyframes(n, f) => {
                    self.out.push_str("@keyframes");
                    self.after_name(n);
                    self.out.push_str(n);
                    self.ws(" ");
                    self.out.push('{');
                    self.ws("\n");
                    for (s, d) in f {
                        self.sels(s);
                        self.ws(" ");
                        self.out.push('{');
                        self.decls(d, false);
                        self.out.push('}');
                        self.ws("\n");
                    }
                    self.out.push('}');
                }
            }
        }
        self.ws("\n");
    }
}

pub fn print(m: &[Item], r: &mut Rng, trivia: usize) -> String {
    let mut p = Printer { r, trivia, out: String::new() };
    p.items(m);
    p.out
}
