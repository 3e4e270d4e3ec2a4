//! Components that use styles, with the place each style was written at. Places are marked by `⟦site⟧` while the text
//! is put together.
use oracle::rng::Rng;

const OPEN: char = '\u{27e6}';
const CLOSE: char = '\u{27e7}';

struct Sites<'a> {
    r: &'a mut Rng,
    /// `css!` is the one of a styled component here
    styled: bool,
    next: usize,
    used: Vec<usize>,
    shape: Vec<String>,
}

impl Sites<'_> {
    fn tag(&mut self) -> (usize, String) {
        let n = self.next;
        self.next += 1;
        self.used.push(n);
        (n, format!("{OPEN}{n}{CLOSE}"))
    }

    /// An expression for a StyleSource.
    fn site(&mut self) -> String {
        let (n, at) = self.tag();
        let r = &mut *self.r;
        let text = *r.pick_of(&["--site: N;", "color: red;--site: N;", "\n        --site: N;\n        @media print { color: red; }\n    ", "é: 'ü'; --site: N; &:hover { color: blue; }"]);
        let plain = text.replace('N', &n.to_string());
        let quoted = if r.chance(1, 2) { format!("\"{plain}\"") } else { format!("r#\"{plain}\"#") };
        let (kind, s) = match r.below(if self.styled { 24 } else { 20 }) {
            0..=2 => ("try_from str", format!("{at}StyleSource::try_from({quoted}).unwrap()")),
            3 => ("try_from string", format!("{at}StyleSource::try_from(String::from({quoted})).unwrap()")),
            4 => ("try_from cow", format!("{at}stylist::StyleSource::try_from(std::borrow::Cow::Borrowed({quoted})).unwrap()")),
            5 => ("from_str", format!("{at}<StyleSource as std::str::FromStr>::from_str({quoted})\n            .unwrap()")),
            6 => ("from sheet", format!("{at}StyleSource::from(sheet!({quoted}))")),
            7 => ("into", format!("{{ let s: StyleSource = sheet!({quoted}){}.{at}into(); s }}", if r.chance(1, 2) { "\n                " } else { "" })),
            8 => ("macro of the user", format!("{at}mine!({n})")),
            9 => ("macro of the user, nested", format!("{at}outer![{n}]")),
            _ => {
                let path = if self.styled && r.chance(3, 4) { "css!" } else { *r.pick_of(&["css!", "stylist::css!", "::stylist::css!", "renamed!"]) };
                let (open, close) = *r.pick_of(&[("(", ")"), ("{", "}"), ("[", "]"), (" (", ")"), ("\n            {", "}")]);
                let (kind, body) = match r.below(4) {
                    0 => ("literal", quoted),
                    1 => ("literal with arguments", format!("{}, v = {n}", quoted.replace(&format!("--site: {n}"), "--site: ${v}").replace("{ color: red; }", "{{ color: red; }}").replace("{ color: blue; }", "{{ color: blue; }}").replace("{{", "{").replace("}}", "}"))),
                    2 => ("inline", text.replace('N', &n.to_string()).replace("é: 'ü';", "color: black;").replace("\n    ", " \n ")),
                    _ => ("inline with interpolation", format!("\n                --site: ${{{n}}};\n                .x & {{ color: red; }}\n            ")),
                };
                self.shape.push(format!("{} {path}", kind));
                return format!("{at}{path}{open}{body}{close}");
            }
        };
        self.shape.push(kind.into());
        s
    }

    /// The expression, taken somewhere else first.
    fn wrapped(&mut self) -> String {
        let mut e = self.site();
        for _ in 0..self.r.below(4) {
            let (kind, f) = *self.r.pick_of(&[
                ("clone", "{ let s = E; let t = s.clone(); drop(s); t }"),
                ("kept", "keep(E)"),
                ("option", "Some(E).unwrap()"),
                ("closure", "(|| E)()"),
                ("vec", "vec![E].pop().unwrap()"),
                ("if", "if keep(true) { E } else { unreachable!() }"),
                ("match", "match keep(1) { 1 => E, _ => unreachable!() }"),
                ("box", "*Box::new(E)"),
                ("rc", "{ let s = Rc::new(E); (*s).clone() }"),
                ("holder", "Holder { s: E }.s"),
                ("loop", "loop { break E }"),
                ("passed", "pass!(E)"),
                ("used before", "{ let s = E; let _c = Classes::from(s.clone()); s }"),
                ("other manager", "E.with_manager(StyleManager::default())"),
                ("block", "{\n        // with a comment: é\n        let s = /* é */ E;\n        s\n    }"),
                ("compared", "{ let s = E; assert!(s == s.clone()); s }"),
            ]);
            // `{ … }.method()` has to be an expression
            let inner = if e.starts_with(['{', '*']) || e.starts_with("if") || e.starts_with("match") || e.starts_with("loop") { format!("({e})") } else { e };
            e = f.replace('E', &inner);
            self.shape.push(kind.into());
        }
        e
    }
}

/// One component: its text, its shape, and the sites of each of its elements.
fn component(r: &mut Rng, k: usize, next: usize) -> (String, String, Vec<(String, Vec<usize>)>, usize) {
    let (head, styled) = *r.pick_of(&[("#[component]", false), ("#[styled_component]", true), ("#[styled_component]", true), ("#[styled_component_impl]\n#[component]", true), ("#[styled_component]", true)]);
    let mut s = Sites { r, styled, next, used: vec![], shape: vec![head.replace('\n', "")] };
    let name = format!("C{k}");
    let el = |i: usize| format!("{k}.{i}");
    let mut before = String::new();
    let sink = s.r.below(13);
    let (kind, body, els): (&str, String, Vec<(String, Vec<usize>)>) = match sink {
        0..=2 => {
            let e = s.wrapped();
            ("class", format!("html! {{ <i data-n=\"{k}.0\" class={{{e}}}></i> }}"), vec![(el(0), s.used.clone())])
        }
        3 => {
            let e = s.wrapped();
            ("classes!", format!("html! {{\n        <p>\n            <i data-n=\"{k}.0\" class={{classes!(\"other\", {e})}}></i>\n        </p>\n    }}"), vec![(el(0), s.used.clone())])
        }
        4 => {
            let a = s.wrapped();
            let b = s.wrapped();
            ("two", format!("html! {{ <i data-n=\"{k}.0\" class={{classes!({a}, {b}, \"other\")}}></i> }}"), vec![(el(0), s.used.clone())])
        }
        5 => {
            let e = s.wrapped();
            ("into", format!("let c: StyleSource = {e};\n    let c: Classes = c.into();\n    html! {{ <i data-n=\"{k}.0\" class={{c}}></i> }}"), vec![(el(0), s.used.clone())])
        }
        6 => {
            let e = s.wrapped();
            ("extended", format!("let mut c = Classes::from(\"other\");\n    c.extend(Classes::from({e}));\n    html! {{ <i data-n=\"{k}.0\" class={{c}}></i> }}"), vec![(el(0), s.used.clone())])
        }
        7 => {
            let e = s.wrapped();
            ("property of classes", format!("html! {{ <Classy n=\"{k}.0\" class={{{e}}} /> }}"), vec![(el(0), s.used.clone())])
        }
        8 => {
            let e = s.wrapped();
            ("property", format!("html! {{ <Handed a=\"{k}.0\" b=\"{k}.1\" css={{{e}}} /> }}"), vec![(el(0), s.used.clone()), (el(1), s.used.clone())])
        }
        9 => {
            let e = s.wrapped();
            ("context", format!("html! {{ <ContextProvider<StyleSource> context={{{e}}}><b><Reads n=\"{k}.0\" /></b></ContextProvider<StyleSource>> }}"), vec![(el(0), s.used.clone())])
        }
        10 => {
            let e = s.wrapped();
            ("repeated", format!("html! {{ <>{{ for (0..3).map(|i| html! {{ <i data-n={{format!(\"{k}.{{i}}\")}} class={{{e}}}></i> }}) }}</> }}"), (0..3).map(|i| (el(i), s.used.clone())).collect())
        }
        11 => {
            let e = s.wrapped();
            ("memo", format!("let c = use_memo((), |_| {e});\n    html! {{ <i data-n=\"{k}.0\" class={{(*c).clone()}}></i> }}"), vec![(el(0), s.used.clone())])
        }
        _ => {
            let attr = if styled { "#[styled_component_impl]\n" } else { "" };
            let e = s.wrapped();
            before = format!("{attr}#[hook]\nfn use_c{k}() -> StyleSource {{\n    {e}\n}}\n\n");
            ("hook", format!("let c = use_c{k}();\n    html! {{ <i data-n=\"{k}.0\" class={{c}}></i> }}"), vec![(el(0), s.used.clone())])
        }
    };
    s.shape.push(kind.into());
    let text = format!("{before}{head}\nfn {name}() -> Html {{\n    {body}\n}}\n\n");
    (text, s.shape.join(", "), els, s.next)
}

/// Takes the marks out, and says where they were: (site, line, column).
fn place(text: &str) -> (String, Vec<(usize, usize, usize)>) {
    let mut out = String::new();
    let mut at = vec![];
    let (mut line, mut col) = (1, 1);
    let mut it = text.chars();
    while let Some(c) = it.next() {
        if c == OPEN {
            let n: String = it.by_ref().take_while(|c| *c != CLOSE).collect();
            at.push((n.parse().unwrap(), line, col));
            continue;
        }
        out.push(c);
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    (out, at)
}

/// The files, and a table of (case, element, sites), of (site, file, line, column), of (case, shape).
pub fn main(seed: u64, n: usize, dir: &str) {
    let mut next = 1;
    let mut table = String::new();
    for (f, count) in [("a.rs", n / 2), ("b.rs", n - n / 2)] {
        let base = if f == "a.rs" { 0 } else { n / 2 };
        let mut text = String::new();
        let mut list = String::new();
        for k in base..base + count {
            let mut r = Rng::derive(seed, "PLACE", k as u64);
            let (t, shape, els, to) = component(&mut r, k, next);
            next = to;
            text.push_str(&format!("// {k}\n{t}"));
            list.push_str(&format!("    ({k}, || html! {{ <C{k} /> }}),\n"));
            table.push_str(&format!("C\t{k}\t{shape}\n"));
            for (e, s) in els {
                table.push_str(&format!("E\t{k}\t{e}\t{}\n", s.iter().map(|m| m.to_string()).collect::<Vec<_>>().join(",")));
            }
        }
        text.push_str(&format!("pub const CASES: &[(usize, fn() -> Html)] = &[\n{list}];\n"));
        let (text, at) = place(&text);
        for (s, l, c) in at {
            table.push_str(&format!("S\t{s}\t{dir}/{f}\t{l}\t{c}\n"));
        }
        crate::write(&format!("{dir}/{f}"), &text);
    }
    crate::write(&format!("{dir}/places.tsv"), &table);
}
