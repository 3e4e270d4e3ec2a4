//! Invocations with values that change.
use oracle::rng::Rng;
use std::fmt::Write;
use stylist::ast::{sheet, Sheet, ToStyleStr};

fn sheets(n: usize, x: &str, f: f64, c: char) -> Vec<Sheet> {
    vec![
        sheet!("color: red;"),
        sheet!("width: ${n}px; content: \"${x}\";", n = n, x = x),
        sheet!(".a-${n}, &:hover > ${x} { margin: calc(1px + ${f}em) }", n = n, x = x, f = f),
        sheet!("@media (min-width: ${n}px) { & .b { top: ${f}px; } @supports (display: ${x}) { c { d: e } } }", n = n, f = f, x = x),
        sheet!("@keyframes k-${x} { from { left: 0 } 50% { left: ${f}% } to { left: ${n}% } }", n = n, f = f, x = x),
        sheet!(r#"content: '$${x}'; &::after { content: "${c}" }"#, c = c),
        sheet!(color: red; .x & { border: ${n}px solid ${x}; }),
        sheet!(--my-var: ${f}; @media print and (max-width: ${n}px) { &.a > b + c { top: -1px; } }),
        sheet!(width: calc(100% - ${n}px); &:hover, .${x} * .b { margin: 0 auto; content: "q"; }),
        sheet!(@supports (display: ${x}) { @media screen { left: 1.5rem; } } ),
        sheet!(background: url("a?b") no-repeat, rgba(0, 0, 0, ${f}); type: ${c};),
    ]
}

pub fn run(r: &mut Rng) -> String {
    let mut o = String::new();
    for _ in 0..3 {
        let x = r.pick(&["a", "grid", "-x", "é", "B_1", "\u{1F980}"]);
        for s in sheets(r.below(5), x, r.below(9) as f64 / 2.0, *r.pick_of(&['a', '\\', '"', '語'])) {
            writeln!(o, "{}\n{}", s.to_style_str(Some("C")), s.to_style_str(None)).unwrap();
        }
    }
    o
}

/// What styles are as classes of an element; where they were made is left out.
#[cfg(feature = "yew")]
pub fn classes(r: &mut Rng) -> String {
    use crate::Ids;
    use stylist::{css, style, Style, StyleSource};
    use yew::Classes;
    let mut ids = Ids::default();
    let mut o = String::new();
    for _ in 0..r.range(2, 6) {
        let n = r.below(3);
        let (c, css): (Classes, String) = match r.below(5) {
            0 => (css!("width: ${n}px;", n = n).into(), format!("css {n}")),
            1 => (css!(height: ${n}px;).into(), format!("inline {n}")),
            2 => {
                let s = style!("top: ${n}px;", n = n).unwrap();
                (s.clone().into(), s.get_style_str().replace(s.get_class_name(), "C"))
            }
            3 => {
                let s = Style::new(format!("left: {n}px;")).unwrap();
                (s.clone().into(), s.get_style_str().replace(s.get_class_name(), "C"))
            }
            _ => (StyleSource::try_from(format!("right: {n}px;")).unwrap().into(), format!("source {n}")),
        };
        let c = c.to_string();
        let c: Vec<String> = c.split_whitespace().filter(|m| !m.contains(".rs:")).map(|m| ids.show(m, "stylist", false)).collect();
        writeln!(o, "{} {css}", c.join(" ")).unwrap();
    }
    o
}
