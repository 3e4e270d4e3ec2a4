//! Runs the generated macro invocations (file named by $GEN at build time) under the monitors of P16, P17, P19, P20.
use oracle::css;
use oracle::report::{Opts, Report};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use stylist::ast::{Sheet, ToStyleStr};
use stylist::{GlobalStyle, Style, StyleSource};

pub enum Made {
    Sheet(Sheet),
    Style(stylist::Result<Style>),
    Global(stylist::Result<GlobalStyle>),
    Source(StyleSource),
}

pub struct Case {
    id: &'static str,
    kind: &'static str,
    make: fn(usize) -> Made,
    args: usize,
    uses: usize,
    /// literal macros: the text after substitution, per variant
    texts: &'static [&'static str],
    scoped: &'static [&'static str],
    global: &'static [&'static str],
    note: &'static str,
}

// ---- what the generated expressions use

pub fn pick<'a>(k: usize, v: &[&'a str]) -> &'a str {
    v[k]
}

/// Displays in many small writes.
pub struct Slow<'a>(&'a str);
impl fmt::Display for Slow<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in self.0.chars() {
            write!(f, "{c}")?;
        }
        f.write_str("")
    }
}

/// Obeys formatting parameters, there should be none.
pub struct Padded<'a>(&'a str);
impl fmt::Display for Padded<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        assert!(f.width().is_none() && f.precision().is_none() && !f.alternate());
        f.pad(self.0)
    }
}

pub struct Holder {
    pub text: String,
}

thread_local!(static TICKS: RefCell<BTreeMap<usize, usize>> = const { RefCell::new(BTreeMap::new()) });
pub const MAIN_WIDTH: u32 = 77;
pub static WORDS: [&str; 3] = ["one", "two", "three"];
thread_local!(static NOW: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
/// The index of the values in use, from nowhere near the macro.
pub fn now_k() -> usize {
    NOW.with(|m| m.get())
}
pub fn now(v: &[&'static str]) -> &'static str {
    v[now_k()]
}
/// Displays what is in use when it is displayed.
#[derive(Clone, Copy)]
pub struct Now(&'static [&'static str]);
impl fmt::Display for Now {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(now(self.0))
    }
}
macro_rules! now_text {
    ($($t:tt)*) => {
        now(&[$($t)*])
    };
}
pub fn tick<T>(n: usize, v: T) -> T {
    TICKS.with(|m| *m.borrow_mut().entry(n).or_default() += 1);
    v
}

include!(env!("GEN"));

/// What an invocation says, and its raw CSS, with the class replaced by C.
struct Seen {
    scoped: Option<String>,
    global: Option<String>,
}

fn read(css: &str) -> String {
    css::read(css).map(|m| css::show(&m)).unwrap_or_else(|e| format!("unreadable: {e}\n{css}"))
}

fn observe(m: Made) -> Result<(Seen, Option<Sheet>), String> {
    let cls = |s: &Style| s.get_style_str().replace(s.get_class_name(), "C");
    Ok(match m {
        Made::Sheet(s) => (Seen { scoped: Some(s.to_style_str(Some("C"))), global: Some(s.to_style_str(None)) }, Some(s)),
        Made::Style(s) => (Seen { scoped: Some(cls(&s.map_err(|e| e.to_string())?)), global: None }, None),
        Made::Global(s) => (Seen { scoped: None, global: Some(s.map_err(|e| e.to_string())?.get_style_str().to_string()) }, None),
        Made::Source(s) => {
            let a = Style::new(s.clone()).map_err(|e| e.to_string())?;
            let b = GlobalStyle::new(s).map_err(|e| e.to_string())?;
            (Seen { scoped: Some(cls(&a)), global: Some(b.get_style_str().to_string()) }, None)
        }
    })
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|m| m.to_string())).unwrap_or_else(|| "panic".into()))
}

fn run(c: &Case, k: usize) -> Result<(Seen, Option<Sheet>), String> {
    NOW.with(|m| m.set(k));
    guard(|| observe((c.make)(k))).unwrap_or_else(|e| Err(format!("panicked: {e}")))
}

fn diff(what: &str, exp: &str, got: &str) -> Option<String> {
    if exp == got {
        return None;
    }
    let n = exp.lines().zip(got.lines()).take_while(|(a, b)| a == b).count();
    Some(format!("{what} differs at event {n}\n  expected: {}\n  got:      {}", exp.lines().nth(n).unwrap_or("<end>"), got.lines().nth(n).unwrap_or("<end>")))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let o = Opts::parse();
    let prop = o.prop.clone();
    let rule = match prop.as_str() {
        "P16" => "generated string-literal macro invocations (random sheets, spellings, literal syntaxes, entry points, holes) compared with the model's meaning and with stylist's own run-time parse of the substituted text; non-trivial: interpolated or nested; distinct by invocation",
        "P17" => "generated inline macro invocations (random tokens, whitespace and comments) compared with what the documented token spacing rule makes of them; non-trivial: more than one statement; distinct by invocation",
        "P19" => "the interpolated invocations of both syntaxes with values of many Display types: the emitted text holds exactly what each value displays, at each use; inline expressions are evaluated exactly once per evaluation of the macro; non-trivial: interpolated; distinct by invocation and variant",
        _ => "every invocation is evaluated with three sets of values, interleaved with all others, again, and on eight threads at once: results follow the current values, and only they; non-trivial: interpolated; distinct by invocation",
    };
    let mut rep = Report::new(o, rule);
    let kinds: &[&str] = match prop.as_str() {
        "P16" => &["literal"],
        "P17" => &["inline"],
        _ => &["literal", "inline"],
    };
    // invocations the compiler refused: all of them are valid
    let mut rest = rep.opts.rest.iter();
    if let (Some("--rejected"), Some(f)) = (rest.next().map(|m| m.as_str()), rest.next().cloned()) {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            let (id, why) = l.split_once('\t').unwrap();
            let kind = if id.starts_with('l') { "literal" } else { "inline" };
            if kinds.contains(&kind) && matches!(prop.as_str(), "P16" | "P17") {
                rep.violation(&format!("{kind}:{id}"), format!("the compiler refuses a valid invocation ({id} of {}): {why}", env!("GEN")));
            }
        }
    }
    if prop == "P20" {
        fresh(&mut rep);
        std::process::exit(rep.finish());
    }
    rep.require("invocations", 60);
    for c in CASES.iter().filter(|c| kinds.contains(&c.kind)) {
        if rep.too_many() {
            break;
        }
        if prop == "P19" && c.args == 0 {
            continue;
        }
        rep.count("invocations", 1);
        rep.count("interpolations", c.args as u64);
        let nontrivial = c.args > 0 || c.scoped[0].lines().count() > 1;
        if prop != "P19" {
            rep.case(c.note, nontrivial);
        }
        if rep_samples(c) {
            rep.sample(format!("{}: {}", c.id, c.note));
        }
        for k in 0..c.scoped.len() {
            if prop == "P19" {
                rep.case(&format!("{} {k}", c.note), true);
                rep.count("interpolated_uses", c.uses as u64);
            }
            TICKS.with(|m| m.borrow_mut().clear());
            let sig = format!("{}:{}", c.kind, c.id);
            let (seen, sheet) = match run(c, k) {
                Ok(m) => m,
                Err(e) => {
                    rep.violation(&sig, format!("variant {k}: {e}\ninvocation:\n{}", c.note));
                    break;
                }
            };
            let ticks = TICKS.with(|m| m.borrow().clone());
            let mut bad = None;
            for (what, got, exp) in [("scoped CSS", &seen.scoped, c.scoped[k]), ("global CSS", &seen.global, c.global[k])] {
                if let Some(g) = got {
                    rep.count("meanings_compared", 1);
                    bad = bad.or(diff(what, exp, &read(g)));
                }
            }
            if prop == "P16" && bad.is_none() {
                // the same text, parsed at run time
                match guard(|| c.texts[k].parse::<Sheet>()) {
                    Ok(Ok(p)) => {
                        rep.count("parsed_again", 1);
                        if let Some(g) = &seen.scoped {
                            let e = p.to_style_str(Some("C"));
                            if read(&e) != read(g) {
                                bad = Some(format!("macro and run-time parse differ\n--- parse:\n{e}\n--- macro:\n{g}"));
                            }
                        }
                        if let Some(g) = &seen.global {
                            if read(&p.to_style_str(None)) != read(g) {
                                bad = Some(format!("macro and run-time parse differ (global)\n--- parse:\n{}\n--- macro:\n{g}", p.to_style_str(None)));
                            }
                        }
                    }
                    e => bad = Some(format!("the macro accepts what the parser does not: {:?}\n{}", e, c.texts[k])),
                }
            }
            if prop == "P19" && bad.is_none() && c.kind == "inline" {
                rep.count("evaluations_counted", ticks.len() as u64);
                if ticks.len() != c.uses || ticks.values().any(|m| *m != 1) {
                    bad = Some(format!("{} interpolated expressions were evaluated {ticks:?} times", c.uses));
                }
            }
            if bad.is_none() && prop != "P20" {
                // made again from the same values, it is an equal sheet
                if let (Some(a), Ok((_, Some(b)))) = (&sheet, run(c, k)) {
                    rep.count("evaluated_again", 1);
                    if *a != b {
                        bad = Some("evaluating the macro again gives another sheet".into());
                    }
                }
            }
            if let Some(b) = bad {
                rep.violation(&sig, format!("variant {k}: {b}\ninvocation:\n{}", c.note));
                break;
            }
        }
    }
    std::process::exit(rep.finish());
}

// evaluations within the expressions of other evaluations of the same invocation

fn widths(s: &Sheet) -> String {
    s.to_style_str(None).split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|m| m.starts_with('d')).collect::<Vec<_>>().join("_")
}

fn nested_inline(depth: usize) -> String {
    let s = stylist::ast::sheet! {
        .a { --x: ${format!("d{depth}")}; }
        ${if depth > 0 { format!(".{}", nested_inline(depth - 1)) } else { ".dend".to_string() }} { color: red; }
        @media print { --y: ${format!("d{depth}")}; }
    };
    widths(&s)
}

fn nested_literal(depth: usize) -> String {
    let s = stylist::ast::sheet!(
        ".a { --x: ${d}; } ${inner} { color: red; } @media print { --y: ${d}; }",
        inner = if depth > 0 { format!(".{}", nested_literal(depth - 1)) } else { ".dend".to_string() },
        d = format!("d{}", depth)
    );
    widths(&s)
}

fn nested_expected(depth: usize) -> String {
    let inner = if depth > 0 { nested_expected(depth - 1) } else { "dend".to_string() };
    // an underscore is no separator for CSS, but is for us
    format!("d{depth}_{}_d{depth}", inner)
}

fn rep_samples(c: &Case) -> bool {
    matches!(c.id, "l0" | "l7" | "i0" | "i7")
}

/// P20: three rounds over all cases in different orders, and on threads.
fn fresh(rep: &mut Report) {
    rep.require("evaluations", 500);
    rep.require("dynamic_results", 200);
    let check = |c: &Case, k: usize| -> Result<(String, Option<(String, String)>), String> {
        let (seen, sheet) = run(c, k)?;
        for (got, exp) in [(&seen.scoped, c.scoped[k]), (&seen.global, c.global[k])] {
            if let Some(g) = got {
                if let Some(d) = diff("CSS", exp, &read(g)) {
                    return Err(d);
                }
            }
        }
        // the identity of the style: same values, same style
        let ident = match (c.make)(k) {
            Made::Style(Ok(s)) => Some(("style".to_string(), s.get_class_name().to_string())),
            Made::Global(Ok(s)) => Some(("global".to_string(), s.id().to_string())),
            _ => sheet.map(|s| ("sheet".to_string(), Style::new(s).map(|m| m.get_class_name().to_string()).unwrap_or_default())),
        };
        Ok((seen.scoped.or(seen.global).unwrap_or_default(), ident))
    };
    let mut first: HashMap<(&str, usize), (String, Option<(String, String)>)> = HashMap::new();
    for round in 0..4usize {
        let mut order: Vec<(usize, usize)> = (0..CASES.len()).flat_map(|i| (0..CASES[i].scoped.len()).map(move |k| (i, k))).collect();
        match round {
            1 => order.reverse(),
            2 => order.sort_by_key(|(i, k)| (*k, *i)),
            _ => {}
        }
        for (i, k) in order {
            if rep.too_many() {
                return;
            }
            let c = &CASES[i];
            rep.count("evaluations", 1);
            if c.args > 0 {
                rep.count("dynamic_results", 1);
            }
            if round == 0 && k == 0 {
                rep.case(c.note, c.args > 0);
            }
            let sig = format!("{}:{}", c.kind, c.id);
            match check(c, k) {
                Err(e) => rep.violation(&sig, format!("round {round}, values {k}: {e}\ninvocation:\n{}", c.note)),
                Ok(r) => match first.get(&(c.id, k)) {
                    Some(f) if *f != r => rep.violation(&sig, format!("round {round}, values {k}: evaluated again, got\n{r:?}\ninstead of\n{f:?}\ninvocation:\n{}", c.note)),
                    Some(_) => {}
                    None => {
                        first.insert((c.id, k), r);
                    }
                },
            }
        }
    }
    for depth in 0..6 {
        rep.count("nested_evaluations", 1);
        for (what, got) in [("inline", nested_inline(depth)), ("literal", nested_literal(depth))] {
            let exp = nested_expected(depth);
            if got != exp {
                rep.violation(&format!("nested:{what}"), format!("evaluations nested {depth} deep give {got:?} instead of {exp:?}"));
            }
        }
    }
    // all threads at once, each in its own order: first uses of statics race
    let res: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8usize)
            .map(|t| {
                s.spawn(move || {
                    let mut bad = vec![];
                    for j in 0..CASES.len() {
                        let i = (j * (2 * t + 1) + t * 7) % CASES.len();
                        let c = &CASES[i];
                        oracle::report::alive();
                        let k = (j + t) % c.scoped.len();
                        match run(c, k) {
                            Err(e) => bad.push(format!("{}: {e}", c.id)),
                            Ok((seen, _)) => {
                                for (got, exp) in [(&seen.scoped, c.scoped[k]), (&seen.global, c.global[k])] {
                                    if let Some(d) = got.as_ref().and_then(|g| diff("CSS", exp, &read(g))) {
                                        bad.push(format!("{}: thread {t}, values {k}: {d}", c.id));
                                    }
                                }
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    rep.count("threaded_evaluations", 8 * CASES.len() as u64);
    for b in res.into_iter().take(5) {
        rep.violation("threads", b);
    }
    rep.sample(CASES.iter().find(|c| c.args > 0).map(|c| c.note).unwrap_or("").to_string());
}
