//! Styled components and hooks in all shapes a function component can have, each next to itself without the mark.
use crate::*;

/// Something with css! in it: statements in front, a node, and the elements it has to give (CSS, text).
struct Spot {
    stmts: String,
    node: String,
    want: Vec<(String, String)>,
}

struct Made<'a> {
    r: &'a mut Rng,
    items: String,
    notes: Vec<String>,
    /// expressions in scope, and what they display
    pool: Vec<(String, String)>,
    n: usize,
}

const PLAIN: &[(&str, &str)] = &[("1 + 1", "2"), ("\"w\"", "w"), ("::std::format!(\"f{}\", 1)", "f1"), ("if true { 'y' } else { 'n' }", "y"), ("{ let css = 5; css }", "5"), ("[3u8, 4][1]", "4"), ("::std::primitive::u8::MAX", "255")];
const LOCALS: &[&str] = &["css", "mgr", "manager", "style_manager", "__stylist_style_manager__", "ctx", "_ctx", "args", "inner", "style", "props2", "stylist", "yew", "std"];

impl Made<'_> {
    fn value(&mut self) -> (String, String) {
        if !self.pool.is_empty() && self.r.chance(1, 2) {
            return self.r.pick_of(&self.pool).clone();
        }
        let (e, v) = *self.r.pick_of(PLAIN);
        (e.into(), v.into())
    }
    fn css_of(&self, decls: &[(String, String)]) -> String {
        expected(&vec![Item::Dangling(decls.iter().map(|(k, v)| Decl { key: k.clone(), val: v.clone() }).collect())], Some("K"))
    }
    /// An invocation, with one value more, and its CSS for every value of that.
    fn css(&mut self, more: &[(String, Vec<String>)]) -> (String, Vec<String>) {
        self.n += 1;
        let key = format!("--k{}", self.n);
        let times = more.first().map_or(1, |m| m.1.len());
        let mut vals: Vec<(String, Vec<String>)> = (0..self.r.below(3)).map(|_| self.value()).map(|(e, v)| (e, vec![v; times])).collect();
        vals.extend(more.iter().cloned());
        let css = (0..times).map(|t| {
            let mut d = vec![(key.clone(), "a".to_string())];
            d.extend(vals.iter().enumerate().map(|(i, v)| (format!("--v{i}"), v.1[t].clone())));
            self.css_of(&d)
        }).collect();
        let body = if self.r.chance(1, 2) {
            let mut o = format!("{key}: a;");
            for (i, v) in vals.iter().enumerate() {
                o.push_str(&format!(" --v{i}: ${{{}}};", v.0));
            }
            o
        } else {
            let mut o = format!("\"{key}: a;");
            for i in 0..vals.len() {
                o.push_str(&format!(" --v{i}: ${{a{i}}};"));
            }
            o.push('"');
            for (i, v) in vals.iter().enumerate() {
                o.push_str(&format!(", a{i} = {}", v.0));
            }
            o
        };
        let (open, close) = *self.r.pick_of(&[("(", ")"), ("{", "}"), ("[", "]")]);
        (format!("CSS!{open}{body}{close}"), css)
    }
    fn spot(&mut self, hooks: bool) -> Spot {
        let j = self.n;
        let text = format!("t{j}");
        let i = |class: &str| format!("<i class={{{class}}}>{{\"{text}\"}}</i>");
        let each = |css: Vec<String>| css.into_iter().map(|m| (m, text.clone())).collect::<Vec<_>>();
        match self.r.below(if hooks { 14 } else { 9 }) {
            0 => {
                let (c, css) = self.css(&[]);
                Spot { stmts: format!("let look{j} = {c};"), node: i(&format!("look{j}")), want: each(css) }
            }
            1 => {
                let (c, css) = self.css(&[]);
                self.notes.push("closure".into());
                Spot { stmts: format!("let f{j} = || {c};"), node: i(&format!("f{j}()")), want: each(css) }
            }
            2 => {
                let (c, css) = self.css(&[("z".into(), vec!["0".into(), "1".into(), "2".into()])]);
                self.notes.push("loop".into());
                Spot { stmts: format!("let mut all{j} = ::std::vec::Vec::new(); for z in 0..3 {{ all{j}.push(::yew::html! {{ {} }}); }}", i(&c)), node: format!("{{all{j}}}"), want: each(css) }
            }
            3 => {
                let (c, css) = self.css(&[]);
                let (d, _) = self.css(&[]);
                self.notes.push("match".into());
                Spot { stmts: String::new(), node: i(&format!("match 1 {{ 1 => {c}, _ => {d} }}")), want: each(css) }
            }
            4 => {
                self.n += 1;
                let n = self.n;
                let (e, v) = self.value();
                self.notes.push("inner macro".into());
                let css = self.css_of(&[(format!("--k{n}"), v)]);
                Spot { stmts: format!("macro_rules! look{j} {{ ($v:expr) => {{ CSS!(\"--k{n}: ${{v}};\", v = $v) }} }}"), node: i(&format!("look{j}!({e})")), want: each(vec![css]) }
            }
            5 => {
                let (c, css) = self.css(&[]);
                Spot { stmts: String::new(), node: i(&format!("{{ let css9 = 1; let _ = css9; {c} }}")), want: each(css) }
            }
            6 => {
                let (c, css) = self.css(&[("a".into(), vec!["7".into(), "8".into()])]);
                self.notes.push("called twice".into());
                Spot { stmts: format!("let mk{j} = |a: u32| {c};"), node: format!("{}{}", i(&format!("mk{j}(7)")), i(&format!("mk{j}(8)"))), want: each(css) }
            }
            9 => {
                // nothing borrowed
                let outer = std::mem::take(&mut self.pool);
                let (c, css) = self.css(&[]);
                self.pool = outer;
                self.notes.push("use_memo".into());
                Spot { stmts: format!("let memo{j} = ::yew::functional::use_memo((), |_| {c});"), node: i(&format!("::std::clone::Clone::clone(&*memo{j})")), want: each(css) }
            }
            10..=13 => {
                let (item, call, want) = self.hook(j);
                self.items.push_str(&item);
                let want = want.into_iter().map(|m| (m, text.clone())).collect();
                Spot { stmts: format!("let hooked{j} = {call};"), node: i(&format!("hooked{j}")), want }
            }
            _ => {
                let (c, css) = self.css(&[]);
                Spot { stmts: String::new(), node: i(&c), want: each(css) }
            }
        }
    }
    fn hook(&mut self, j: usize) -> (String, String, Vec<String>) {
        // the values in scope of the component are not in scope of the hook
        let outer = std::mem::take(&mut self.pool);
        let (sig, call, extra): (&str, &str, Option<(&str, &str)>) = *self.r.pick_of(&[
            ("use_NAME() -> ::stylist::StyleSource", "use_NAME()", None),
            ("use_NAME(n: u32) -> ::stylist::StyleSource", "use_NAME(5)", Some(("n", "5"))),
            ("use_NAME<T: ::std::fmt::Display>(t: T) -> ::stylist::StyleSource", "use_NAME('c')", Some(("t", "c"))),
            ("use_NAME<T>(t: &T) -> ::stylist::StyleSource where T: ::std::fmt::Display", "use_NAME(&6)", Some(("t", "6"))),
            ("use_NAME<'a>(t: &'a str) -> ::stylist::StyleSource", "use_NAME(\"st\")", Some(("&t", "st"))),
            ("use_NAME(t: impl ::std::fmt::Display) -> ::stylist::StyleSource", "use_NAME(7.5)", Some(("t", "7.5"))),
            ("use_NAME<const N: usize>(list: [u8; N]) -> ::stylist::StyleSource", "use_NAME([0; 4])", Some(("N", "4"))),
            ("use_NAME(pair: (u32, u32)) -> ::stylist::StyleSource", "use_NAME((8, 9))", Some(("pair.0 + 0 * pair.1", "8"))),
            ("use_NAME(f: impl ::std::ops::Fn(u32) -> u32) -> ::stylist::StyleSource", "use_NAME(|m| m * 2)", Some(("f(4)", "8"))),
            ("use_NAME(mut n: u32) -> ::stylist::StyleSource", "use_NAME(5)", Some(("{ n += 1; n }", "6"))),
        ]);
        let more: Vec<(String, Vec<String>)> = extra.iter().map(|m| (m.0.to_string(), vec![m.1.to_string()])).collect();
        let (c, css) = self.css(&more);
        self.notes.push(format!("hook {sig}"));
        let body = match self.r.below(5) {
            0 => format!("let made = {c}; made"),
            1 => format!("if true {{ return {c}; }} ::std::unreachable!()"),
            2 => format!("let state = ::yew::functional::use_state(|| 1); let _ = state; {c}"),
            3 => format!("(|| {c})()"),
            _ => c,
        };
        let vis = *self.r.pick_of(&["pub ", "", "pub(crate) ", "pub(super) "]);
        let doc = *self.r.pick_of(&["", "/// A look.\n", "#[allow(unused)]\n", "#[cfg(all())]\n"]);
        self.pool = outer;
        (format!("{doc}@SI#[::yew::functional::hook]\n{vis}fn {} {{\n    {body}\n}}\n", sig.replace("NAME", &format!("look{j}"))), call.replace("NAME", &format!("look{j}")), css)
    }
}

fn case(r: &mut Rng) -> (String, Vec<(String, String)>, String) {
    let mut m = Made { r, items: String::new(), notes: vec![], pool: vec![], n: 0 };
    let bare = m.r.chance(1, 3);
    if bare {
        m.notes.push("no prelude".into());
    }
    // ---- what else is in the module
    for _ in 0..m.r.below(3) {
        let (name, item, e, v) = *m.r.pick_of(&[
            ("user's css!", "macro_rules! css { ($($t:tt)*) => { \"outer\" } }\n", "", ""),
            ("user's css", "pub fn css() -> u8 { 11 }\n", "css()", "11"),
            ("user's StyleManager", "pub struct StyleManager;\nimpl StyleManager { pub const W: u8 = 12; }\n", "StyleManager::W", "12"),
            ("user's stylist", "pub mod stylist { pub const W: u8 = 13; }\n", "self::stylist::W", "13"),
            ("user's yew", "pub mod yew { pub const W: u8 = 14; }\n", "self::yew::W", "14"),
            ("user's std", "pub mod std { pub const W: u8 = 15; }\n", "self::std::W", "15"),
            ("user's use_context", "pub fn use_context<T>() -> T { ::std::panic!() }\n", "", ""),
            ("user's Clone", "pub trait Clone { fn clone(&self) -> u8 { 16 } }\nimpl Clone for u64 {}\n", "", ""),
            ("user's Default", "pub trait Default { fn default() -> u8 { 17 } }\nimpl Default for u64 {}\n", "<u64 as Default>::default()", "17"),
            ("methods on everything", "pub trait Bad { fn with_manager(&self, _: u8) -> u8 { 0 } fn unwrap_or_default(&self) -> u8 { 0 } fn unwrap_or_else(&self) -> u8 { 0 } fn clone_it(&self) {} }\nimpl<T> Bad for T {}\n", "", ""),
            ("Option and Some", "pub struct Some;\npub struct None;\npub struct Option;\nimpl Option { pub const W: u8 = 18; }\n", "Option::W", "18"),
        ]);
        if m.items.contains(item) {
            continue;
        }
        m.items.push_str(item);
        m.notes.push(name.into());
        if !e.is_empty() {
            m.pool.push((e.into(), v.into()));
        }
    }
    // ---- the component
    let vis = *m.r.pick_of(&["pub ", "", "pub(crate) ", "pub(super) "]);
    let attr = *m.r.pick_of(&["", "", "/// A component.\n", "#[allow(unused)]\n", "#[cfg(all())]\n", "#[allow(non_snake_case)]\n/// Twice\n/// documented.\n"]);
    let result = m.r.chance(1, 3);
    let ret = match (result, m.r.below(3)) {
        (true, _) => "::yew::HtmlResult",
        (_, 0) => "::yew::virtual_dom::VNode",
        _ => "::yew::Html",
    };
    const PROPS: &str = "#[derive(::yew::Properties, ::std::cmp::PartialEq)]\npub struct Props { pub n: u32, pub word: ::yew::AttrValue }\n";
    const GEN: &str = "#[derive(::yew::Properties, ::std::cmp::PartialEq)]\npub struct Gen<T: ::std::cmp::PartialEq> { pub t: T }\n";
    let p = |e: &str, v: &str| (e.to_string(), v.to_string());
    let (shape, items, sig, tag, scope): (&str, &str, &str, &str, Vec<(String, String)>) = match m.r.below(13) {
        0 | 1 => ("", "", "Comp()", "<Comp />", vec![]),
        2 => ("props", PROPS, "Comp(props: &Props)", "<Comp n=3 word=\"pw\" />", vec![p("props.n", "3"), p("&props.word", "pw")]),
        3 => ("taken apart", PROPS, "Comp(Props { n, word: w }: &Props)", "<Comp n=4 word=\"px\" />", vec![p("n", "4"), p("w", "px"), p("*n + 1", "5")]),
        4 => ("unused props", PROPS, "Comp(_: &Props)", "<Comp n=4 word=\"px\" />", vec![]),
        5 => ("generic", GEN, "Comp<T: ::std::fmt::Display + ::std::cmp::PartialEq + 'static>(props: &Gen<T>)", "<Comp<u8> t=9 />", vec![p("props.t", "9"), p("&props.t", "9")]),
        6 => ("where", GEN, "Comp<T>(Gen { t }: &Gen<T>) WHERE where T: ::std::fmt::Display + ::std::cmp::PartialEq + 'static", "<Comp<char> t='g' />", vec![p("t", "g"), p("::std::mem::size_of::<T>()", "4")]),
        7 => ("reference to unit", "", "Comp(_unit: &())", "<Comp />", vec![]),
        8 => ("path of props", PROPS, "Comp(self_: &self::Props)", "<Comp n=5 word=\"py\" />", vec![p("self_.n", "5")]),
        9 => ("children", "#[derive(::yew::Properties, ::std::cmp::PartialEq)]\npub struct Ch { pub children: ::yew::Children, #[prop_or(6)] pub n: u32 }\n", "Comp(Ch { children, n }: &Ch)", "<Comp><b /></Comp>", vec![p("children.len()", "1"), p("n", "6")]),
        10 => ("generic of two", "#[derive(::yew::Properties, ::std::cmp::PartialEq)]\npub struct Two<A: ::std::cmp::PartialEq, B: ::std::cmp::PartialEq> { pub a: A, pub b: B }\n", "Comp<A, B>(two: &Two<A, B>) WHERE where A: ::std::fmt::Display + ::std::cmp::PartialEq + 'static, B: ::std::cmp::PartialEq + 'static + ::std::convert::AsRef<str>", "<Comp<u16, ::std::string::String> a=21 b={::std::format!(\"two\")} />", vec![p("two.a", "21"), p("two.b.as_ref()", "two")]),
        11 => ("recursive", "#[derive(::yew::Properties, ::std::cmp::PartialEq)]\npub struct Down { pub n: u32 }\n", "Comp(d: &Down)", "<Comp n=2 />", vec![]),
        _ => ("callback prop", "#[derive(::yew::Properties, ::std::cmp::PartialEq)]\npub struct Cb { pub f: ::yew::Callback<u32, u32> }\n", "Comp(Cb { f }: &Cb)", "<Comp f={<::yew::Callback<_, _> as ::std::convert::From<_>>::from(|m: u32| m + 1)} />", vec![p("f.emit(4)", "5")]),
    };
    // what the derive macro of the properties makes needs the prelude
    let mut beside = String::new();
    if bare && !items.is_empty() {
        beside = format!("pub mod @Q {{\n{items}}}\n");
        m.items.push_str("pub use super::@Q::*;\n");
    } else {
        m.items.push_str(items);
    }
    if !shape.is_empty() {
        m.notes.push(shape.into());
    }
    m.pool.extend(scope);
    let mut stmts = String::new();
    for _ in 0..m.r.below(3) {
        let l = *m.r.pick_of(LOCALS);
        if !stmts.contains(&format!("let {l} ")) {
            stmts.push_str(&format!("    let {l} = \"loc-{l}\";\n"));
            m.pool.push((l.into(), format!("loc-{l}")));
            m.notes.push(format!("local {l}"));
        }
    }
    let mut node = String::new();
    let mut want = vec![];
    for _ in 0..m.r.range(1, 4) {
        let s = m.spot(true);
        stmts.push_str(&format!("    {}\n", s.stmts));
        node.push_str(&s.node);
        want.extend(s.want);
    }
    if shape == "recursive" {
        let (c, css) = m.css(&[("d.n".into(), vec!["2".into(), "1".into(), "0".into()])]);
        let one = std::mem::take(&mut want);
        for c in css {
            want.extend(one.iter().cloned());
            want.push((c, "r".into()));
        }
        node.push_str(&format!("<i class={{{c}}}>{{\"r\"}}</i>if d.n > 0 {{ <Comp n={{d.n - 1}} /> }}"));
    } else if m.r.chance(1, 4) {
        // nothing borrowed
        let outer = std::mem::take(&mut m.pool);
        let (c, css) = m.css(&[]);
        m.pool = outer;
        m.notes.push("moved into a closure".into());
        node.push_str(&format!("<i class={{<::yew::Callback<_, _> as ::std::convert::From<_>>::from(move |_: ()| {c}).emit(())}}>{{\"m\"}}</i>"));
        want.push((css[0].clone(), "m".into()));
    }
    let html = format!("::yew::html! {{ <>{node}</> }}");
    let ok = |m: String| if result { format!("::std::result::Result::Ok({m})") } else { m };
    let end = match m.r.below(6) {
        0 => {
            m.notes.push("return".into());
            format!("return {};", ok(html))
        }
        1 => {
            m.notes.push("early return".into());
            let (c, _) = m.css(&[]);
            format!("if ::std::option_env!(\"NEVER_SET\").is_some() {{ return {}; }}\n    {}", ok(format!("::yew::html! {{ <i class={{{c}}} /> }}")), ok(html))
        }
        2 => format!("let all = {html};\n    {}", ok("all".into())),
        _ => ok(html),
    };
    let (sig, wh) = sig.split_once(" WHERE ").map_or((sig, ""), |m| m);
    let fun = |name: &str| format!("fn {} -> {ret} {wh} {{\n{stmts}    {end}\n}}\n", sig.replacen("Comp", name, 1));
    let run = format!("::yew::html! {{ {tag} }}");
    let (item, run) = match m.r.below(7) {
        0 => {
            m.notes.push("named".into());
            (format!("{attr}@SC(Comp)#\n{vis}{}", fun("comp")), run)
        }
        1 if !html_has_dollar(&stmts, &end) => {
            m.notes.push("made by a macro".into());
            (format!("macro_rules! comp {{ ($name:ident) => {{ {attr}@SC#\n{vis}{} }} }}\ncomp!(Comp);\n", fun("$name")), run)
        }
        2 if !m.items.contains("mod ") && beside.is_empty() && shape != "path of props" => {
            m.notes.push("within a function".into());
            let inner = std::mem::take(&mut m.items);
            (String::new(), format!("{inner}{attr}@SC#\n{}{run}", fun("Comp")))
        }
        3 => {
            m.notes.push("renamed".into());
            (format!("@USE{attr}@RENAMED\n{vis}{}", fun("Comp")), run)
        }
        _ => (format!("{attr}@SC#\n{vis}{}", fun("Comp")), run),
    };
    let (items, notes) = (m.items, m.notes.join(", "));
    (format!("{beside}{}pub mod @M {{\n{items}{item}pub fn run() -> ::yew::Html {{\n{run}\n}}\n}}\n", if bare { "#[no_implicit_prelude]\n" } else { "" }), want, notes)
}

/// `$` has a meaning of its own within macro_rules!
fn html_has_dollar(a: &str, b: &str) -> bool {
    a.contains('$') || b.contains('$')
}

fn styled(t: &str, k: usize) -> String {
    t.replace("@M", &format!("c{k}")).replace("@Q", &format!("cq{k}")).replace("@SI", "#[::stylist::yew::styled_component_impl]\n").replace("@USE", "use ::stylist::yew::styled_component as marked;\n").replace("@RENAMED", "#[marked]").replace("@SC(Comp)#", "#[::stylist::yew::styled_component(Comp)]").replace("@SC#", "#[::stylist::yew::styled_component]").replace("CSS!", "css!")
}
fn plain(t: &str, k: usize) -> String {
    t.replace("@M", &format!("p{k}")).replace("@Q", &format!("pq{k}")).replace("@SI", "").replace("@USE", "use ::yew::functional::function_component as marked;\n").replace("@RENAMED", "#[marked]").replace("@SC(Comp)#", "#[::yew::functional::function_component(Comp)]").replace("@SC#", "#[::yew::functional::function_component]").replace("CSS!", "::stylist::css!")
}

pub fn main(seed: u64, n: usize, out: &str, skip: &[&str]) {
    let (mut text, mut table, mut want) = (String::new(), String::new(), String::new());
    for k in 0..n {
        let (t, els, note) = case(&mut Rng::derive(seed, "COMPS", k as u64));
        want.push_str(&format!("    Want {{ case: {k}, note: {}, elements: &[{}] }},\n", raw(&note), els.iter().map(|m| format!("({}, {})", raw(&m.0), raw(&m.1))).collect::<Vec<_>>().join(", ")));
        if !skip.contains(&&*format!("p{k}")) {
            text.push_str(&format!("// case p{k}\n{}", plain(&t, k)));
        }
        if !skip.contains(&&*k.to_string()) && !skip.contains(&&*format!("p{k}")) {
            text.push_str(&format!("// case {k}\n{}", styled(&t, k)));
            table.push_str(&format!("    ({k}, c{k}::run),\n"));
        }
    }
    crate::write(out, &format!("{text}// case -\npub const CASES: &[(usize, fn() -> ::yew::Html)] = &[\n{table}];\n"));
    crate::write(&format!("{out}.want"), &format!("const WANT: &[Want] = &[\n{want}];\n"));
}
