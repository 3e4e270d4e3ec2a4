//! String-literal macros: a model is printed with holes, holes become `${name}`.
use crate::*;

const NAMES: &[&str] = &["color", "x", "X", "x1", "Color", "sel_div", "breakpoint", "a1", "W", "width_", "from", "into", "sheet", "k2", "ctx", "Cow", "b_2_c", "str", "value", "self_", "item"];

/// Places in a text where a hole can begin and end without splitting a token of the template.
fn spans(s: &str, kind: Kind) -> Vec<(usize, usize, bool)> {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    // 0 outside, else the quote; escapes stay in one piece
    let mut out = vec![];
    let mut state = vec![];
    let mut q = '\0';
    let mut esc = false;
    for (_, c) in &b {
        let before = q;
        if esc {
            esc = false;
            state.push((before, true));
            continue;
        }
        if *c == '\\' {
            esc = true;
        } else if q == '\0' && (*c == '"' || *c == '\'') {
            q = *c;
        } else if q == *c && q != '\0' {
            q = '\0';
        }
        state.push((before, false));
    }
    let at = |i: usize| if i < b.len() { b[i].0 } else { s.len() };
    for i in 0..b.len() {
        for j in i + 1..=b.len().min(i + 24) {
            let (qi, ei) = state[i];
            let qj = if j < b.len() { state[j].0 } else { q };
            let ej = j < b.len() && state[j].1;
            if ei || ej || qi != qj {
                continue;
            }
            let t = &s[at(i)..at(j)];
            // brackets have to close within the piece, the template has to stand on its own
            let (mut depth, mut low) = (0i32, 0);
            for k in i..j {
                match b[k].1 {
                    _ if state[k] != ('\0', false) => {}
                    '(' | '[' => depth += 1,
                    ')' | ']' => depth -= 1,
                    _ => {}
                }
                low = low.min(depth);
            }
            if depth != 0 || low != 0 {
                continue;
            }
            if qi == '\0' {
                if t.trim() != t || t.contains('\\') {
                    continue;
                }
                if kind != Kind::Value && t.contains(',') {
                    continue;
                }
            }
            // `$` before the hole would make an escape of it
            if s[..at(i)].ends_with('$') {
                continue;
            }
            out.push((at(i), at(j), qi != '\0'));
        }
    }
    out
}

fn other(r: &mut Rng, v: &str, in_string: bool, kind: Kind) -> String {
    let word = !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric());
    if in_string {
        // values are not parsed again: `${x}` in a value is text
        return match r.below(5) {
            0 => String::new(),
            1 => "${x}".into(),
            2 => "$${".into(),
            3 => "é {} %s \\\\".into(),
            _ => format!("w{}", r.below(100)),
        };
    }
    if word && v.parse::<u64>().is_ok() {
        return r.below(999).to_string();
    }
    if word && v.starts_with(|c: char| c.is_ascii_alphabetic()) && !matches!(v, "and" | "not" | "or" | "only") {
        return format!("w{}", r.below(100));
    }
    if kind == Kind::Value && v.contains(' ') && r.chance(1, 3) {
        return "var(--other, \"a;b\") 1px".into();
    }
    v.to_string()
}

struct Template {
    m: Model,
    args: Vec<Arg>,
    uses: usize,
    /// with private-use characters for holes
    template: String,
    text: String,
}

fn template(r: &mut Rng, with_args: bool) -> Template {
    let mut prof = Profile::full();
    prof.max_items = 4;
    let many = r.chance(1, 30);
    if many {
        prof.max_items = 30;
    }
    let mut m = loop {
        let m = gen_model(r, &prof);
        if count_decls(&m) <= if many { 150 } else { 30 } {
            break m;
        }
    };
    let mut args: Vec<Arg> = vec![];
    let mut uses = 0;
    if with_args {
        let mut names: Vec<String> = NAMES.iter().map(|m| m.to_string()).collect();
        r.shuffle(&mut names);
        if many {
            names.extend((0..150).map(|k| format!("arg{k}")));
        }
        let mut again: Vec<usize> = vec![];
        each_text(&mut m, &mut |s, kind| {
            for _ in 0..2 {
                if args.len() >= names.len() || !r.chance(1, 3) {
                    continue;
                }
                let sp: Vec<(usize, usize, bool)> = spans(s, kind).into_iter().filter(|(a, b, _)| !s[*a..*b].chars().any(|c| c as u32 >= HOLE && (c as u32) < HOLE + 1000)).collect();
                if sp.is_empty() {
                    continue;
                }
                // whole strings and words are more interesting than fragments of them
                let (a, b, q) = if r.chance(1, 4) && sp.contains(&(0, s.len(), false)) { (0, s.len(), false) } else { *r.pick_of(&sp) };
                let v = s[a..b].to_string();
                let mut vals = vec![v.clone()];
                while vals.len() < VARIANTS {
                    vals.push(other(r, &v, q, kind));
                }
                let name = names[args.len()].to_string();
                let (setup, expr) = expr::expr(r, &vals, &name);
                if kind == Kind::Value && !q && !v.contains(';') {
                    again.push(args.len());
                }
                s.replace_range(a..b, &char::from_u32(HOLE + args.len() as u32).unwrap().to_string());
                uses += 1;
                args.push(Arg { name, vals, setup, expr });
            }
        });
        if r.chance(1, 2) && args.len() < names.len() && !expr::pure() {
            let (e, v) = expr::fixed(r);
            let h = char::from_u32(HOLE + args.len() as u32).unwrap();
            uses += 1;
            args.push(Arg { name: names[args.len()].to_string(), vals: vec![v.to_string(); VARIANTS], setup: String::new(), expr: e.to_string() });
            m.push(Item::Block(vec![Sel::lit(".fixed")], vec![Body::Decl(Decl { key: "--fixed".into(), val: format!("{h}px") })]));
        }
        // the same argument once more
        if let (Some(&k), true) = (again.first(), r.chance(1, 2)) {
            uses += 1;
            let h = char::from_u32(HOLE + k as u32).unwrap();
            let val = r.pick_of(&[format!("{h}"), format!("fn(1, {h})"), format!("{h} !important"), format!("1px/{h}")]).clone();
            m.push(Item::Block(vec![Sel::lit(".again")], vec![Body::Decl(Decl { key: "--again".into(), val: val.clone() })]));
        }
    }
    let trivia = r.below(3);
    let template = print(&m, r, trivia);
    let mut t = template.replace("${", "$${");
    for (k, a) in args.iter().enumerate() {
        let h = char::from_u32(HOLE + k as u32).unwrap();
        let mut o = String::new();
        for c in t.chars() {
            if c == h {
                o.push_str(&match r.below(4) {
                    0 => format!("${{ {} }}", a.name),
                    _ => format!("${{{}}}", a.name),
                });
            } else {
                o.push(c);
            }
        }
        t = o;
    }
    Template { m, args, uses, template, text: t }
}

/// A sheet with interpolations.
pub fn sample(r: &mut Rng) -> Option<(String, Vec<Arg>)> {
    let t = template(r, true);
    (!t.args.is_empty()).then_some((t.text, t.args))
}

pub fn case(g: &mut Gen, r: &mut Rng, i: usize) {
    expr::new_case(r);
    let Template { m, args, uses, template, text: t } = template(r, i % 4 != 3);
    let mut order: Vec<usize> = (0..args.len()).collect();
    r.shuffle(&mut order);
    let mut inv = rust_str(r, &t);
    for k in order {
        inv.push_str(&format!(",{}{} = {}", r.pick(&[" ", "\n    ", ""]), args[k].name, args[k].expr));
    }
    if r.chance(1, 4) {
        inv.push(',');
    }
    let n = if args.is_empty() { 1 } else { VARIANTS };
    let mut texts = vec![];
    let mut models = vec![];
    for k in 0..n {
        texts.push(fill(&template, &args, k));
        let mut mk = m.clone();
        each_text(&mut mk, &mut |s, _| *s = fill(s, &args, k));
        models.push(mk);
    }
    g.case(r, &format!("l{i}"), "literal", &inv, &args, uses, &texts, &models, &inv);
}
