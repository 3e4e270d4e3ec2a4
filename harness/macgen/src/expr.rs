//! Rust expressions that display as a given text.
use crate::{rust_str, VARIANTS};
use oracle::rng::Rng;

/// Expressions that are nothing but a literal, or depend on no local variable, and what they display.
pub const FIXED: &[(&str, &str)] = &[
    ("1.50", "1.5"), ("1e3", "1000"), ("0x10", "16"), ("1_000u64", "1000"), ("'c'", "c"), ("true", "true"), ("b'a'", "97"), ("1.0", "1"), ("1.0f32", "1"),
    ("-1.50", "-1.5"), ("concat!(\"a\", 1)", "a1"), ("stringify!(b)", "b"), ("007", "7"), ("0b11", "3"), ("0o17", "15"), ("1e-3", "0.001"), ("100.0 * 1.0", "100"),
    ("u8::MAX", "255"), ("i8::MIN", "-128"), ("10 / 4", "2"), ("10.0 / 4.0", "2.5"), ("!0u8", "255"), ("f32::INFINITY", "inf"), ("'\\u{e9}'", "é"), ("\"\\x41\\u{42}\"", "AB"), ("(\"p\")", "p"),
    ("0.1 + 0.2", "0.30000000000000004"), ("1e21", "1000000000000000000000"), ("\" s \"", " s "), ("r\"r\"", "r"), ("MAIN_WIDTH", "77"), ("WORDS[1]", "two"), ("{ 5 }", "5"), ("&7", "7"),
];

thread_local! {
    static ONE: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
    static PURE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Some cases have one kind of expression only, maybe with literals.
pub fn new_case(r: &mut Rng) {
    const KINDS: [u64; 12] = [16, 17, 17, 17, 18, 19, 21, 21, 22, 23, 24, 24];
    let kind = r.chance(1, 2).then(|| if r.chance(2, 3) { *r.pick_of(&KINDS) } else { r.below(25) as u64 });
    ONE.with(|m| m.set(kind));
    PURE.with(|m| m.set(kind.is_some() && r.chance(1, 2)));
}

/// Whether the case has nothing but expressions of that kind.
pub fn pure() -> bool {
    PURE.with(|m| m.get())
}

/// Whether an expression is to be something else than what it is by itself.
pub fn wrapped(r: &mut Rng, n: usize, of: usize) -> bool {
    ONE.with(|m| m.get()).is_none() && r.chance(n, of)
}

/// One of FIXED.
pub fn fixed(r: &mut Rng) -> (&'static str, &'static str) {
    loop {
        let (e, v) = *r.pick_of(FIXED);
        if ONE.with(|m| m.get()).is_none() || syn_literal(e) {
            return (e, v);
        }
    }
}

fn syn_literal(e: &str) -> bool {
    e.starts_with(|c: char| c.is_ascii_digit() || c == '"' || c == '\'') && !e.contains(" + ") && !e.contains(" * ") && !e.contains(" / ")
}

/// A name for a constant, another one for every name.
fn shout(name: &str) -> String {
    let small: String = name.chars().map(|c| if c.is_lowercase() { '1' } else { '0' }).collect();
    format!("{}_{small}", name.to_uppercase())
}

fn table(r: &mut Rng, vals: &[String]) -> String {
    vals.iter().map(|m| rust_str(r, m)).collect::<Vec<_>>().join(", ")
}

/// (statements before the macro, expression). The expression has no comma outside brackets.
pub fn expr(r: &mut Rng, vals: &[String], name: &str) -> (String, String) {
    assert_eq!(vals.len(), VARIANTS);
    let one = ONE.with(|m| m.get());
    let fixed = vals.iter().all(|m| *m == vals[0]);
    if let Ok(v) = vals.iter().map(|m| m.parse::<i64>().map_err(|_| ()).and_then(|v| if v.to_string() == *m { Ok(v) } else { Err(()) })).collect::<Result<Vec<_>, _>>() {
        if wrapped(r, 2, 3) {
            let t = v.iter().map(|m| format!("{m}i64")).collect::<Vec<_>>().join(", ");
            return match r.below(if v.iter().all(|m| m.abs() < 1 << 50) { 4 } else { 2 }) {
                0 => (String::new(), format!("[{t}][k] as i128")),
                1 => (String::new(), format!("1 + [{t}][k] - 1i64")),
                2 => (format!("    let {name} = [{t}][k] as f64;\n"), name.to_string()),
                _ => (String::new(), format!("std::convert::identity([{t}][k])")),
            };
        }
    }
    let pick = if fixed && r.chance(1, 2) {
        rust_str(r, &vals[0])
    } else {
        format!("pick(k, &[{}])", table(r, vals))
    };
    if vals.iter().all(|m| m.chars().count() == 1) && wrapped(r, 1, 3) {
        return (String::new(), format!("{pick}.chars().next().unwrap()"));
    }
    match one.unwrap_or_else(|| r.below(25) as u64) {
        // nothing but a name, a path or a macro, and yet not always the same
        21 => (format!("    static {}: Now = Now(&[{}]);\n", shout(name), table(r, vals)), shout(name)),
        22 => (String::new(), format!("Now(&[{}])", table(r, vals))),
        23 => (String::new(), format!("now_text!({})", table(r, vals))),
        24 => (format!("    struct Theme{name};\n    impl Theme{name} {{\n        const CURRENT: Now = Now(&[{}]);\n    }}\n", table(r, vals)), format!("Theme{name}::CURRENT")),
        16 => (String::new(), format!("now(&[{}])", table(r, vals))),
        17 => (format!("    fn {name}_now() -> &'static str {{\n        now(&[{}])\n    }}\n", table(r, vals)), format!("{name}_now()")),
        18 => (format!("    thread_local!(static {}_text: &'static [&'static str] = const {{ &[{}] }});\n", name, table(r, vals)), format!("{}_text.with(|m| now(m).to_string())", name)),
        19 => (format!("    static {}_list: [&str; 3] = [{}];\n", name, table(r, vals)), format!("{}_list[now_k()]", name)),
        0 => (String::new(), pick),
        1 => (String::new(), format!("{pick}.to_string()")),
        2 => (String::new(), format!("Slow({pick})")),
        3 => (String::new(), format!("format_args!(\"{{}}\", {pick})")),
        4 => (String::new(), format!("&&{pick}")),
        5 => (String::new(), format!("std::borrow::Cow::Borrowed({pick})")),
        6 => (String::new(), format!("std::rc::Rc::<str>::from({pick})")),
        7 => (String::new(), format!("{{ let v = {pick}; let w = v; w }}")),
        8 => (String::new(), format!("match k {{ 0 => {pick}, _ => {{ {pick} }} }}")),
        9 => (String::new(), format!("(|| {pick})()")),
        10 => (format!("    let {name} = {pick};\n"), name.to_string()),
        11 => (format!("    let {name} = String::from({pick});\n"), format!("{name}.clone()")),
        12 => (String::new(), format!("Padded({pick})")),
        13 => (String::new(), format!("if k < 100 {{ {pick}.to_owned() }} else {{ String::new() }}")),
        14 => (format!("    let {name} = Holder {{ text: {pick}.into() }};\n"), format!("{name}.text")),
        15 => (String::new(), format!("vec![{pick}, \"no\"][0]")),
        _ => (format!("    let {name} = |a: &str, b: usize| a.split_at(b).0.to_string();\n"), format!("{name}({pick}, {pick}.len())")),
    }
}
