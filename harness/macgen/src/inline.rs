//! Inline macros: token sequences, and what the documented spacing rule makes of them.
use crate::*;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    /// a CSS identifier (Rust identifiers joined by dashes)
    Ident(String),
    /// number with unit, or string
    Lit(String),
    Punct(char),
    Open(char),
    Close(char),
    /// interpolation of argument n
    Hole(usize),
    /// a space stylist promises here although the spacing rule does not (after and, or, not)
    Gap,
}
use Tok::*;

/// The documented rule: a space between two tokens depends on nothing but the two tokens.
fn text(t: &[Tok]) -> String {
    let mut o = String::new();
    for (i, m) in t.iter().enumerate() {
        if let Some(l) = i.checked_sub(1).map(|i| &t[i]) {
            let left = matches!(l, Close(_) | Ident(_) | Lit(_) | Punct('*') | Punct('&'));
            let right = matches!(m, Ident(_) | Lit(_) | Punct('*') | Punct('#'));
            if left && right {
                o.push(' ');
            }
        }
        match m {
            Ident(s) | Lit(s) => o.push_str(s.strip_prefix("r#").unwrap_or(s)),
            Punct(c) | Open(c) | Close(c) => o.push(*c),
            Hole(n) => o.push(char::from_u32(HOLE + *n as u32).unwrap()),
            Gap => o.push(' '),
        }
    }
    o
}

fn to_sel(t: &[Tok]) -> Sel {
    // current selectors outside of brackets of any kind are pieces; everything else is text
    let s = text(t);
    let mut v = vec![];
    let mut lit = String::new();
    let mut rest = s.as_str();
    let mut q = false;
    while let Some(c) = rest.chars().next() {
        if c == '\\' && q {
            let n = 1 + rest[1..].chars().next().unwrap().len_utf8();
            lit.push_str(&rest[..n]);
            rest = &rest[n..];
            continue;
        }
        if c == '"' {
            q = !q;
        }
        let root = rest.strip_prefix(":root").is_some_and(|m| !m.starts_with(|c: char| c == '-' || c == '_' || c.is_alphanumeric()));
        if !q && (c == '&' || root) {
            if !lit.is_empty() {
                v.push(Piece::Lit(std::mem::take(&mut lit)));
            }
            v.push(if root { Piece::Root } else { Piece::Amp });
            rest = &rest[if root { 5 } else { 1 }..];
            continue;
        }
        lit.push(c);
        rest = &rest[c.len_utf8()..];
    }
    if !lit.is_empty() {
        v.push(Piece::Lit(lit));
    }
    Sel(v)
}

struct In<'a> {
    r: &'a mut Rng,
    args: Vec<Arg>,
    src: String,
    base: usize,
}

const IDENTS: &[&str] = &["red", "solid", "auto", "none", "inline-block", "ease-in-out", "-apple-system", "currentColor", "sans-serif", "type", "in", "loop", "self", "r#for", "--x", "a-b-c", "BLACK", "größe", "_x", "x1"];
const NUMS: &[&str] = &["0", "1", "10px", "0.4rem", "3px", "1.5", "100", "1fr", "360deg", "200ms", "0.3s", "2x"];
const KEYS: &[&str] = &["color", "background-color", "width", "margin", "font-family", "transition", "-webkit-appearance", "--main-color", "--x", "z-index", "type", "r#match", "border", "content", "animation-name", "src"];
const STRS: &[&str] = &["\"a\"", "\"\"", "\"a; b { } c\"", "\"&\"", "\":root .x\"", "\"images/pdf.png\"", "\"\\\\\"", "\"\\\"\"", "\"日本\"", "\"/* no */ // no\"", "\"${x}\"", "\"a,b\"", "\"it's\"", "\"@media\""];

impl In<'_> {
    fn hole(&mut self, vals: Vec<String>) -> Tok {
        let name = format!("v{}", self.base + self.args.len());
        let (setup, expr) = expr::expr(self.r, &vals, &name);
        let n = self.args.len();
        let expr = if expr::wrapped(self.r, 1, 2) { format!("tick({n}, {expr})") } else { expr };
        // a temporary of format_args! cannot be passed around
        let expr = if expr.contains("tick(") && expr.contains("format_args!") { expr.replace("format_args!", "format!") } else { expr };
        self.args.push(Arg { name, vals, setup, expr });
        Hole(n)
    }
    fn ident(&mut self, l: &[&str]) -> Tok {
        Ident(match self.r.below(8) {
            0 => format!("n{}", self.r.below(500)),
            _ => self.r.pick(l).to_string(),
        })
    }
    fn lit(&mut self) -> Tok {
        Lit(match self.r.below(4) {
            0 => self.r.pick(STRS).to_string(),
            1 => format!("{}px", self.r.below(900)),
            _ => self.r.pick(NUMS).to_string(),
        })
    }

    fn value(&mut self, out: &mut Vec<Tok>, depth: usize) {
        let n = self.r.range(1, 4);
        for i in 0..n {
            if i > 0 {
                match self.r.below(6) {
                    0 => out.push(Punct(',')),
                    1 => out.push(Punct('/')),
                    2 if depth == 0 && self.r.chance(1, 3) => out.push(Punct(':')),
                    _ => {}
                }
            }
            // a dash after a token would continue it
            let free = matches!(out.last(), None | Some(Punct(',' | '/' | ':') | Open(_)));
            match self.r.below(12) {
                0..=2 => {
                    let t = self.ident(IDENTS);
                    let dash = matches!(&t, Ident(s) if s.starts_with('-'));
                    if dash && !free {
                        out.push(Ident("plain".into()));
                    } else {
                        out.push(t);
                    }
                }
                3..=5 => {
                    let t = self.lit();
                    let num = matches!(&t, Lit(s) if s.starts_with(|c: char| c.is_ascii_digit()));
                    if num && free && self.r.chance(1, 4) {
                        out.push(Punct('-'));
                    }
                    out.push(t);
                }
                6 => {
                    out.push(Lit(format!("{}", self.r.below(101))));
                    out.push(Punct('%'));
                }
                7 => {
                    out.push(Punct('#'));
                    out.push(if self.r.chance(1, 2) { Ident((*self.r.pick_of(&["fff", "d0d0d9", "abc", "c0ffee"])).into()) } else { Lit((*self.r.pick_of(&["9799a7", "000", "123456", "00ff00"])).into()) });
                }
                8 if depth < 3 => {
                    let name = *self.r.pick_of(&["rgba", "var", "url", "attr", "cubic-bezier", "linear-gradient", "fn_", "not", "and"]);
                    out.push(Ident(name.into()));
                    out.push(Open('('));
                    if self.r.chance(9, 10) {
                        self.value(out, depth + 1);
                    }
                    out.push(Close(')'));
                }
                9 if !expr::pure() => {
                    let (e, v) = expr::fixed(self.r);
                    let n = self.args.len();
                    let e = if expr::wrapped(self.r, 1, 3) { format!("tick({n}, {e})") } else { e.to_string() };
                    self.args.push(Arg { name: String::new(), vals: vec![v.to_string(); VARIANTS], setup: String::new(), expr: e });
                    out.push(Hole(n));
                }
                _ => {
                    let k = self.r.below(6);
                    let vals = (0..VARIANTS)
                        .map(|_| match k {
                            0 => self.r.below(1000).to_string(),
                            1 => format!("{}em", self.r.below(90)),
                            2 => "#44444e".to_string(),
                            3 => " 1px solid ".to_string(),
                            4 => format!("\"s;{}\"", self.r.below(9)),
                            _ => "x".to_string(),
                        })
                        .collect();
                    let h = self.hole(vals);
                    out.push(h);
                }
            }
        }
    }

    fn compound(&mut self, out: &mut Vec<Tok>, first: bool) {
        let mut any = false;
        let spaced = matches!(out.last(), Some(Close(_) | Ident(_) | Lit(_) | Punct('*') | Punct('&')));
        let has_hole = matches!(out.last(), Some(Hole(_)));
        // an identifier that begins a block must not be followed by a colon
        let mut colon_ok = true;
        if !has_hole {
            match self.r.below(6) {
                0 | 1 => {
                    let t = self.ident(&["div", "span", "h1", "input", "article", "my-element", "li", "a", "type"]);
                    out.push(t);
                    any = true;
                    colon_ok = !first;
                }
                2 => {
                    out.push(Punct('*'));
                    any = true;
                }
                3 if !first || spaced || out.is_empty() => {
                    out.push(Punct('#'));
                    let t = self.ident(&["id", "content", "the-id"]);
                    out.push(t);
                    any = true;
                }
                _ => {}
            }
        }
        let n = if any { self.r.below(3) } else { self.r.range(1, 2) };
        for _ in 0..n {
            match self.r.below(if colon_ok { 7 } else { 4 }) {
                0..=2 => {
                    out.push(Punct('.'));
                    let t = self.ident(&["a", "with-class", "class_b", "loop", "x"]);
                    out.push(t);
                    colon_ok = true;
                }
                3 => {
                    out.push(Open('['));
                    let t = self.ident(&["href", "data-x", "type", "rel"]);
                    out.push(t);
                    if self.r.chance(3, 4) {
                        match self.r.below(6) {
                            0 => out.push(Punct('~')),
                            1 => out.push(Punct('|')),
                            2 => out.push(Punct('^')),
                            3 => out.push(Punct('$')),
                            4 => out.push(Punct('*')),
                            _ => {}
                        }
                        out.push(Punct('='));
                        let s = loop {
                            let s = self.r.pick(STRS);
                            if !s.contains("/*") {
                                break s.to_string();
                            }
                        };
                        out.push(if self.r.chance(1, 4) { Ident("plain".into()) } else { Lit(s) });
                    }
                    out.push(Close(']'));
                    colon_ok = true;
                }
                4 => {
                    out.push(Punct(':'));
                    let t = self.ident(&["hover", "focus-visible", "checked", "first-child"]);
                    out.push(t);
                }
                5 => {
                    out.push(Punct(':'));
                    out.push(Punct(':'));
                    let t = self.ident(&["before", "after", "first-letter", "-webkit-scrollbar"]);
                    out.push(t);
                }
                _ => {
                    out.push(Punct(':'));
                    match self.r.below(4) {
                        0 => {
                            out.extend([Ident("nth-child".into()), Open('('), Lit("2n".into()), Punct('+'), Lit("1".into()), Close(')')]);
                        }
                        1 => {
                            out.extend([Ident("not".into()), Open('('), Punct('.'), Ident("z".into()), Close(')')]);
                        }
                        2 => {
                            out.extend([Ident("is".into()), Open('('), Ident("h1".into()), Punct(','), Ident("h2".into()), Punct('>'), Ident("b".into()), Close(')')]);
                        }
                        _ => {
                            out.extend([Ident("nth-of-type".into()), Open('('), Ident("odd".into()), Close(')')]);
                        }
                    }
                }
            }
        }
    }

    fn selector(&mut self) -> Vec<Tok> {
        let mut out = vec![];
        match self.r.below(8) {
            0 | 1 => out.push(Punct('&')),
            2 => {
                out.push(Punct(':'));
                out.push(Ident("root".into()));
            }
            3 => out.push(Punct(*self.r.pick_of(&['>', '+', '~']))),
            4 => {
                let k = self.r.below(3);
                let vals = (0..VARIANTS).map(|i| match k {
                    0 => format!("div.selected{i}"),
                    1 => format!(".h{i} > b"),
                    _ => format!("[title=\"a,{i}\"]"),
                }).collect();
                let h = self.hole(vals);
                out.push(h);
                if self.r.chance(1, 2) {
                    return out;
                }
                // `${x}:hover {` reads like a declaration
                out.push(Punct('.'));
                out.push(Ident("after-hole".into()));
            }
            _ => {}
        }
        let first = out.is_empty();
        self.compound(&mut out, first);
        for _ in 0..self.r.below(3) {
            match self.r.below(4) {
                0..=2 => out.push(Punct(*self.r.pick_of(&['>', '+', '~']))),
                _ => {
                    // descendants need a token the rule puts a space before
                    if matches!(out.last(), Some(Close(_) | Ident(_) | Punct('*'))) {
                        if matches!(out.last(), Some(Close(_))) && self.r.chance(1, 2) {
                            let t = self.ident(&["div", "span", "h1", "my-element", "type"]);
                            out.push(t);
                        } else if self.r.chance(1, 2) {
                            out.push(Punct('*'));
                        } else {
                            out.push(Punct('#'));
                            let t = self.ident(&["id", "content", "the-id"]);
                            out.push(t);
                        }
                    }
                }
            }
            let before = out.len();
            self.compound(&mut out, false);
            assert!(out.len() > before);
        }
        out
    }

    fn cond(&mut self, media: bool, depth: usize) -> Vec<Tok> {
        let mut out = vec![];
        let feature = |s: &mut Self, out: &mut Vec<Tok>| {
            out.push(Open('('));
            match s.r.below(5) {
                0 => out.push(Ident("monochrome".into())),
                1 => {
                    out.push(Ident("max-width".into()));
                    out.push(Punct(':'));
                    let vals = (0..VARIANTS).map(|_| format!("{}px", s.r.below(999))).collect();
                    let h = s.hole(vals);
                    out.push(h);
                }
                2 => {
                    out.push(Ident("display".into()));
                    out.push(Punct(':'));
                    out.push(Ident("inline-grid".into()));
                }
                3 => out.extend([Ident("aspect-ratio".into()), Punct(':'), Lit("16".into()), Punct('/'), Lit("9".into())]),
                _ => {
                    out.push(Ident("min-width".into()));
                    out.push(Punct(':'));
                    let t = Lit(format!("{}px", s.r.below(999)));
                    out.push(t);
                }
            }
            out.push(Close(')'));
        };
        if media {
            match self.r.below(4) {
                0 => out.push(Ident("print".into())),
                1 => {
                    out.extend([Ident("screen".into()), Ident("and".into()), Gap]);
                    feature(self, &mut out);
                }
                2 => {
                    out.extend([Ident("screen".into()), Punct(','), Ident("only".into()), Ident("print".into()), Ident("and".into()), Gap]);
                    feature(self, &mut out);
                }
                _ => feature(self, &mut out),
            }
            if self.r.chance(1, 3) {
                out.push(Ident("and".into()));
                if self.r.chance(1, 3) {
                    // nothing but the expression decides about the space after it
                    let h = self.hole(vec![" (color)".into(), " (min-width: 1px)".into(), " (hover)".into()]);
                    out.push(h);
                } else {
                    out.push(Gap);
                    feature(self, &mut out);
                }
            }
        } else {
            match self.r.below(5) {
                0 => {
                    out.extend([Ident("not".into()), Gap]);
                    feature(self, &mut out);
                }
                1 if depth < 2 => {
                    out.push(Open('('));
                    let c = self.cond(false, depth + 1);
                    out.extend(c);
                    out.push(Close(')'));
                }
                2 => out.extend([Ident("selector".into()), Open('('), Punct(':'), Ident("not".into()), Open('('), Punct('.'), Ident("a".into()), Close(')'), Close(')')]),
                _ => feature(self, &mut out),
            }
            if self.r.chance(1, 3) {
                out.extend([Ident((*self.r.pick_of(&["and", "or"])).into()), Gap]);
                feature(self, &mut out);
            }
        }
        out
    }

    // ---- printing

    fn ws(&mut self, must: bool) {
        let s = match self.r.below(12) {
            0 => "\n        ",
            1 => "  ",
            2 => " /* c */ ",
            3 => " // c; } {\n",
            4 | 5 if !must => "",
            _ => " ",
        };
        self.src.push_str(s);
    }

    fn toks(&mut self, t: &[Tok]) {
        for (i, m) in t.iter().enumerate() {
            if i > 0 {
                let (l, n) = (&t[i - 1], m);
                // Rust's own tokens must not merge, and joint dashes not come apart
                let wordy = |t: &Tok| matches!(t, Ident(_) | Lit(_));
                let must = (wordy(l) && (wordy(n) || matches!(n, Punct('#')))) || matches!((l, n), (Lit(_), Punct('.'))) || matches!((l, n), (Close(_), Punct('#')));
                let glued = matches!((l, n), (Punct('#'), _) | (Punct('-'), _) | (Punct('/'), _) | (_, Punct('/')))
                    || matches!((l, n), (Ident(_), Open('(')));
                if must {
                    self.ws(true);
                } else if !glued {
                    match self.r.below(4) {
                        0 => self.ws(false),
                        _ => {
                            if matches!((l, n), (Punct(a), Punct(b)) if "/*".contains(*a) || "/*".contains(*b)) || matches!((l, n), (Punct('&'), Punct('&'))) {
                                self.src.push(' ');
                            }
                        }
                    }
                } else if matches!((l, n), (Punct('/'), Punct(_)) | (Punct(_), Punct('/'))) {
                    self.src.push(' ');
                }
            }
            match m {
                Ident(s) | Lit(s) => self.src.push_str(s),
                Punct(c) | Open(c) | Close(c) => self.src.push(*c),
                Gap => self.src.push(' '),
                Hole(n) => {
                    let e = self.args[*n].expr.clone();
                    self.src.push_str(&if self.r.chance(1, 3) { format!("${{ {e} }}") } else { format!("${{{e}}}") });
                }
            }
        }
    }

    fn decl(&mut self) -> Decl {
        let hole_key = self.r.chance(1, 12);
        let key = if hole_key {
            let vals = (0..VARIANTS).map(|i| format!("--key{i}")).collect();
            self.hole(vals)
        } else {
            self.ident(KEYS)
        };
        let mut v = vec![];
        self.value(&mut v, 0);
        self.toks(std::slice::from_ref(&key));
        self.ws(false);
        self.src.push(':');
        self.ws(false);
        self.toks(&v);
        self.ws(false);
        self.src.push(';');
        self.ws(false);
        Decl { key: text(&[key]), val: text(&v) }
    }

    fn at(&mut self) -> At {
        let media = self.r.chance(1, 2);
        let c = self.cond(media, 0);
        self.src.push_str(if media { "@media " } else { "@supports " });
        self.toks(&c);
        self.ws(false);
        At { tag: if media { "@media" } else { "@supports" }, cond: text(&c) }
    }

    fn body(&mut self, depth: usize) -> Vec<Body> {
        let n = if self.r.chance(1, 15) { 0 } else { self.r.range(1, 4) };
        let mut v = vec![];
        for _ in 0..n {
            if depth < 3 && self.r.chance(1, 5) {
                let a = self.at();
                self.src.push('{');
                let b = self.body(depth + 1);
                self.src.push('}');
                v.push(Body::At(a, b));
            } else {
                v.push(Body::Decl(self.decl()));
            }
            self.ws(false);
        }
        v
    }

    fn items(&mut self, depth: usize, n: usize) -> Model {
        let mut v: Model = vec![];
        for _ in 0..n {
            match self.r.below(10) {
                0..=2 => {
                    let d = (0..self.r.range(1, 3)).map(|_| self.decl()).collect::<Vec<_>>();
                    if let Some(Item::Dangling(l)) = v.last_mut() {
                        l.extend(d);
                    } else {
                        v.push(Item::Dangling(d));
                    }
                }
                3..=7 => {
                    let mut sels = vec![];
                    for i in 0..1 + self.r.below(2) * self.r.below(3) {
                        if i > 0 {
                            self.src.push(',');
                            self.ws(false);
                        }
                        let s = self.selector();
                        self.toks(&s);
                        sels.push(to_sel(&s));
                    }
                    self.ws(false);
                    self.src.push('{');
                    let b = self.body(depth + 1);
                    self.src.push('}');
                    v.push(Item::Block(sels, b));
                }
                _ if depth < 3 => {
                    let a = self.at();
                    self.src.push('{');
                    let m = if self.r.chance(1, 12) { 0 } else { self.r.range(1, 3) };
                    let c = self.items(depth + 1, m);
                    self.src.push('}');
                    v.push(Item::At(a, c));
                }
                _ => {}
            }
            self.ws(true);
        }
        v
    }
}

/// Some valid statements, of the kind allowed in a block, or at the top level.
pub fn sample(r: &mut Rng, n: usize, block: bool, first_arg: usize) -> (String, Vec<Arg>) {
    let mut rr = Rng::new(r.u64());
    let mut s = In { r: &mut rr, args: vec![], src: String::new(), base: first_arg };
    if block {
        for _ in 0..n {
            s.decl();
        }
    } else {
        s.items(1, n);
    }
    (s.src, s.args)
}

pub fn case(g: &mut Gen, r: &mut Rng, i: usize) {
    expr::new_case(r);
    let n = r.range(1, 4);
    let mut rr = Rng::new(r.u64());
    let mut g_in = In { r: &mut rr, args: vec![], src: String::new(), base: 0 };
    // a first string literal would make it a string macro: inline sheets never begin with one
    let m = g_in.items(0, n);
    let (args, src) = (g_in.args, g_in.src);
    let mut models = vec![];
    for k in 0..if args.is_empty() { 1 } else { VARIANTS } {
        let mut mk = m.clone();
        each_text(&mut mk, &mut |s, _| *s = fill(s, &args, k));
        fill_keys(&mut mk, &args, k);
        models.push(mk);
    }
    let ticks = args.iter().filter(|a| a.expr.contains("tick(")).count();
    g.case(r, &format!("i{i}"), "inline", &src, &args, ticks, &[], &models, &src);
}

fn fill_keys(m: &mut [Item], args: &[Arg], k: usize) {
    fn body(b: &mut [Body], args: &[Arg], k: usize) {
        for m in b {
            match m {
                Body::Decl(d) => d.key = fill(&d.key, args, k),
                Body::At(_, b) => body(b, args, k),
            }
        }
    }
    for i in m {
        match i {
            Item::Dangling(d) => d.iter_mut().for_each(|d| d.key = fill(&d.key, args, k)),
            Item::Block(_, b) => body(b, args, k),
            Item::At(_, c) => fill_keys(c, args, k),
            Item::Keyframes(..) => {}
        }
    }
}
