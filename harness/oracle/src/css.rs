//! A small CSS reader written from the css-syntax rules, used to judge emitted CSS.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// A declaration, the at-rules around it (outermost first) and the selectors of its block.
    Decl { at: Vec<String>, sels: Vec<String>, key: String, val: String },
    /// A block / at-rule without any content.
    Empty { at: Vec<String>, sels: Vec<String> },
    /// A `@keyframes` at-rule (present even when it has no frames).
    Keyframes { at: Vec<String>, name: String },
    /// A statement at-rule such as `@import "x";`
    Stmt { at: Vec<String>, text: String },
}

impl Ev {
    pub fn show(&self) -> String {
        match self {
            Ev::Decl { at, sels, key, val } => {
                format!("[{}] {} => {}: {}", at.join(" | "), sels.join(" , "), key, val)
            }
            Ev::Empty { at, sels } => format!("[{}] {} => (empty)", at.join(" | "), sels.join(" , ")),
            Ev::Keyframes { at, name } => format!("[{}] keyframes {}", at.join(" | "), name),
            Ev::Stmt { at, text } => format!("[{}] statement {}", at.join(" | "), text),
        }
    }
}

pub fn show(evs: &[Ev]) -> String {
    evs.iter().map(Ev::show).collect::<Vec<_>>().join("\n")
}

/// Index just behind the string literal that starts at `i`.
fn skip_string(c: &[char], i: usize) -> Result<usize, String> {
    let q = c[i];
    let mut j = i + 1;
    while j < c.len() {
        if c[j] == '\\' {
            j += 2;
            continue;
        }
        if c[j] == q {
            return Ok(j + 1);
        }
        j += 1;
    }
    Err("unterminated string".into())
}

fn skip_comment(c: &[char], i: usize) -> Result<usize, String> {
    let mut j = i + 2;
    while j + 1 < c.len() {
        if c[j] == '*' && c[j + 1] == '/' {
            return Ok(j + 2);
        }
        j += 1;
    }
    Err("unterminated comment".into())
}

fn is_comment(c: &[char], i: usize) -> bool {
    c[i] == '/' && i + 1 < c.len() && c[i + 1] == '*'
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}')
}

/// Comments dropped, runs of whitespace collapsed, trimmed; strings untouched.
/// With `tight`, whitespace around commas goes as well.
pub fn norm(s: &str, tight: bool) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut pending = false;
    let mut i = 0;
    while i < c.len() {
        if is_comment(&c, i) {
            match skip_comment(&c, i) {
                Ok(j) => {
                    i = j;
                    continue;
                }
                Err(_) => {
                    out.extend(&c[i..]);
                    break;
                }
            }
        }
        if is_ws(c[i]) {
            pending = true;
            i += 1;
            continue;
        }
        if pending {
            if !out.is_empty() && !(tight && (c[i] == ',' || out.ends_with(','))) {
                out.push(' ');
            }
            pending = false;
        }
        if c[i] == '"' || c[i] == '\'' {
            let j = skip_string(&c, i).unwrap_or(c.len()).min(c.len());
            out.extend(&c[i..j]);
            i = j;
            continue;
        }
        if c[i] == '\\' && i + 1 < c.len() {
            out.push(c[i]);
            out.push(c[i + 1]);
            i += 2;
            continue;
        }
        out.push(c[i]);
        i += 1;
    }
    out
}

/// Split at top-level commas.
pub fn split_commas(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let (mut depth, mut start, mut i) = (0i32, 0, 0);
    while i < c.len() {
        match c[i] {
            '"' | '\'' => {
                i = skip_string(&c, i).unwrap_or(c.len());
                continue;
            }
            '\\' => {
                i += 2;
                continue;
            }
            '/' if is_comment(&c, i) => {
                i = skip_comment(&c, i).unwrap_or(c.len());
                continue;
            }
            '(' | '[' => depth += 1,
            ')' | ']' => depth -= 1,
            ',' if depth == 0 => {
                out.push(c[start..i].iter().collect());
                start = i + 1;
            }
            _ => {}
        }
        i += 1;
    }
    out.push(c[start.min(c.len())..].iter().collect());
    out
}

struct P<'a> {
    c: &'a [char],
    i: usize,
    out: Vec<Ev>,
}

pub fn read(css: &str) -> Result<Vec<Ev>, String> {
    let c: Vec<char> = css.chars().collect();
    let mut p = P { c: &c, i: 0, out: vec![] };
    p.block(&[], &[], true)?;
    Ok(p.out)
}

impl P<'_> {
    fn trivia(&mut self) -> Result<(), String> {
        while self.i < self.c.len() {
            if is_ws(self.c[self.i]) {
                self.i += 1;
            } else if is_comment(self.c, self.i) {
                self.i = skip_comment(self.c, self.i)?;
            } else {
                break;
            }
        }
        Ok(())
    }

    /// Text up to `;`, `{` or `}` at nesting level 0 (terminator is not consumed).
    fn prelude(&mut self) -> Result<(String, Option<char>), String> {
        let start = self.i;
        let mut stack: Vec<char> = vec![];
        while self.i < self.c.len() {
            let ch = self.c[self.i];
            match ch {
                '"' | '\'' => {
                    self.i = skip_string(self.c, self.i)?;
                    continue;
                }
                '\\' => {
                    self.i += 2;
                    continue;
                }
                '/' if is_comment(self.c, self.i) => {
                    self.i = skip_comment(self.c, self.i)?;
                    continue;
                }
                '(' => stack.push(')'),
                '[' => stack.push(']'),
                ')' | ']' => {
                    if stack.pop() != Some(ch) {
                        return Err(format!("unbalanced {ch:?} at char {}", self.i));
                    }
                }
                ';' | '{' | '}' if stack.is_empty() => {
                    return Ok((self.c[start..self.i].iter().collect(), Some(ch)));
                }
                '{' | '}' => return Err(format!("{ch:?} inside brackets at char {}", self.i)),
                _ => {}
            }
            self.i += 1;
        }
        if !stack.is_empty() {
            return Err("unclosed bracket at end of input".into());
        }
        self.i = self.c.len();
        Ok((self.c[start.min(self.c.len())..].iter().collect(), None))
    }

    fn block(&mut self, at: &[String], sels: &[String], top: bool) -> Result<(), String> {
        let before = self.out.len();
        loop {
            self.trivia()?;
            if self.i >= self.c.len() {
                if top {
                    return Ok(());
                }
                return Err("unclosed block at end of input".into());
            }
            if self.c[self.i] == '}' {
                if top {
                    return Err(format!("stray '}}' at char {}", self.i));
                }
                self.i += 1;
                if self.out.len() == before {
                    self.out.push(Ev::Empty { at: at.to_vec(), sels: sels.to_vec() });
                }
                return Ok(());
            }
            if self.c[self.i] == ';' {
                self.i += 1;
                continue;
            }
            let is_at = self.c[self.i] == '@';
            let (text, term) = self.prelude()?;
            if is_at {
                let name = norm(&text, false);
                match term {
                    Some('{') => {
                        self.i += 1;
                        let mut at2 = at.to_vec();
                        if name.starts_with("@keyframes") {
                            self.out.push(Ev::Keyframes { at: at.to_vec(), name: name.clone() });
                            at2.push(name);
                            // an empty @keyframes is fine: it is not reported as Empty
                            let n = self.out.len();
                            self.block(&at2, &[], false)?;
                            if self.out.len() == n + 1 {
                                if let Ev::Empty { at: a, .. } = &self.out[n] {
                                    if *a == at2 {
                                        self.out.pop();
                                    }
                                }
                            }
                        } else {
                            at2.push(name);
                            self.block(&at2, sels, false)?;
                        }
                    }
                    Some(';') => {
                        self.i += 1;
                        self.out.push(Ev::Stmt { at: at.to_vec(), text: name });
                    }
                    _ => return Err(format!("at-rule without body: {name:?}")),
                }
                continue;
            }
            match term {
                Some('{') => {
                    if !sels.is_empty() {
                        return Err(format!("qualified rule {text:?} nested inside a block {sels:?}"));
                    }
                    self.i += 1;
                    let s: Vec<String> =
                        split_commas(&text).iter().map(|m| norm(m, true)).collect();
                    if s.iter().any(|m| m.is_empty()) {
                        return Err(format!("empty selector in {text:?}"));
                    }
                    self.block(at, &s, false)?;
                }
                t => {
                    if sels.is_empty() {
                        return Err(format!("declaration {text:?} outside any block"));
                    }
                    if t.is_none() {
                        return Err(format!("unclosed block after {text:?}"));
                    }
                    let Some(k) = text.find(':') else {
                        return Err(format!("declaration without colon: {text:?}"));
                    };
                    let key = norm(&text[..k], false);
                    let val = norm(&text[k + 1..], false);
                    if key.is_empty() || key.chars().any(is_ws) {
                        return Err(format!("bad property name {key:?}"));
                    }
                    if val.is_empty() {
                        return Err(format!("empty value for {key:?}"));
                    }
                    self.out.push(Ev::Decl { at: at.to_vec(), sels: sels.to_vec(), key, val });
                    if t == Some(';') {
                        self.i += 1;
                    }
                }
            }
        }
    }
}

/// Class names (`.name` outside strings, comments and brackets) used by a complex selector.
pub fn classes_of(sel: &str) -> Vec<String> {
    let c: Vec<char> = sel.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let mut br = 0i32;
    while i < c.len() {
        match c[i] {
            '"' | '\'' => {
                i = skip_string(&c, i).unwrap_or(c.len());
                continue;
            }
            '/' if is_comment(&c, i) => {
                i = skip_comment(&c, i).unwrap_or(c.len());
                continue;
            }
            '\\' => {
                i += 2;
                continue;
            }
            '[' | '(' => br += 1,
            ']' | ')' => br -= 1,
            '.' if br == 0 => {
                let mut j = i + 1;
                let mut name = String::new();
                while j < c.len() {
                    if c[j] == '\\' && j + 1 < c.len() {
                        name.push(c[j]);
                        name.push(c[j + 1]);
                        j += 2;
                    } else if c[j].is_alphanumeric() || c[j] == '-' || c[j] == '_' || !c[j].is_ascii() {
                        name.push(c[j]);
                        j += 1;
                    } else {
                        break;
                    }
                }
                out.push(name);
                i = j;
                continue;
            }
            _ => {}
        }
        i += 1;
    }
    out
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn reads() {
        let e = read("@media (a: b) {\n .x , .y:is(a, b) {\n a: b;\n c: \"};\" }\n}\n@keyframes z {}").unwrap();
        assert_eq!(e.len(), 3, "{}", show(&e));
        assert!(read("a { b: c; } }").is_err());
        assert!(read("a { b: c; ").is_err());
        assert!(read("b: c;").is_err());
        assert_eq!(classes_of(".a.b [x='.c'] .d:not(.e)"), vec!["a", "b", "d"]);
    }
}

/// The text of CSS with escapes that do not change a string's value undone.
pub fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars().peekable();
    while let Some(m) = c.next() {
        if m == '\\' && (c.peek() == Some(&'/') || o.ends_with('<') && c.peek() == Some(&'!')) {
            continue;
        }
        o.push(m);
    }
    o
}
