//! stylist's public AST <-> the oracle's tree.
use oracle::css::norm;
use oracle::model::{self, merge_dangling, Body, Decl, Item, Node, Sel};
use oracle::rng::Rng;
use stylist::ast::{
    Block, Bow, Rule, RuleBlockContent, ScopeContent, Selector, Sheet, StringFragment,
    StyleAttribute,
};

fn cat(f: &[StringFragment]) -> String {
    f.iter().map(|m| m.inner.as_ref()).collect()
}

fn attr(a: &StyleAttribute) -> Node {
    Node::Decl(norm(&a.key, false), norm(&cat(&a.value), false))
}

fn sel(s: &Selector) -> String {
    norm(&cat(&s.fragments), true)
}

fn rbc(c: &RuleBlockContent, frames: bool) -> Node {
    match c {
        RuleBlockContent::StyleAttr(a) => attr(a),
        RuleBlockContent::Rule(r) => rule(r, frames),
        RuleBlockContent::Block(b) => block(b),
    }
}

fn rule(r: &Rule, frame: bool) -> Node {
    let cond = norm(&cat(&r.condition), frame);
    let kf = cond.starts_with("@keyframes");
    Node::At(cond, r.content.iter().map(|m| rbc(m, kf)).collect())
}

fn block(b: &Block) -> Node {
    Node::Block(
        b.condition.iter().map(sel).collect(),
        b.content.iter().map(|m| rbc(m, false)).collect(),
    )
}

pub fn tree(s: &Sheet) -> Vec<Node> {
    merge_dangling(
        s.iter()
            .map(|m| match m {
                ScopeContent::Block(b) => block(b),
                ScopeContent::Rule(r) => rule(r, false),
            })
            .collect(),
    )
}

/// All text held by a sheet, in order (for conservation checks).
pub fn text(s: &Sheet) -> String {
    fn b(b: &Block, o: &mut String) {
        for s in b.condition.iter() {
            o.push_str(&cat(&s.fragments));
            o.push('\n');
        }
        b.content.iter().for_each(|m| c(m, o));
    }
    fn r(r: &Rule, o: &mut String) {
        o.push_str(&cat(&r.condition));
        o.push('\n');
        r.content.iter().for_each(|m| c(m, o));
    }
    fn c(m: &RuleBlockContent, o: &mut String) {
        match m {
            RuleBlockContent::StyleAttr(a) => {
                o.push_str(&a.key);
                o.push('\n');
                o.push_str(&cat(&a.value));
                o.push('\n');
            }
            RuleBlockContent::Rule(m) => r(m, o),
            RuleBlockContent::Block(m) => b(m, o),
        }
    }
    let mut o = String::new();
    for m in s.iter() {
        match m {
            ScopeContent::Block(m) => b(m, &mut o),
            ScopeContent::Rule(m) => r(m, &mut o),
        }
    }
    o
}

// ------------------------------------------------------------ model -> AST

/// Splits a text into random string fragments (as the macros do around interpolations).
fn frags(s: &str, r: &mut Option<&mut Rng>) -> Vec<StringFragment> {
    let Some(r) = r else { return vec![s.to_string().into()] };
    let chars: Vec<char> = s.chars().collect();
    let mut out: Vec<StringFragment> = vec![];
    let mut i = 0;
    for _ in 0..r.below(8).saturating_sub(5) {
        out.push(String::new().into());
    }
    while i < chars.len() {
        let n = if r.chance(1, 2) { chars.len() - i } else { r.range(1, chars.len() - i) };
        let t: String = chars[i..i + n].iter().collect();
        out.push(t.into());
        i += n;
        if r.chance(1, 12) {
            out.push(String::new().into());
        }
    }
    out
}

fn a_decl(d: &Decl, r: &mut Option<&mut Rng>) -> RuleBlockContent {
    StyleAttribute { key: d.key.clone().into(), value: frags(&d.val, r).into() }.into()
}

fn a_body(b: &[Body], r: &mut Option<&mut Rng>) -> Vec<RuleBlockContent> {
    b.iter()
        .map(|m| match m {
            Body::Decl(d) => a_decl(d, r),
            Body::At(a, b) => RuleBlockContent::Rule(Bow::Boxed(Box::new(Rule {
                condition: frags(&a.text(), r).into(),
                content: a_body(b, r).into(),
            }))),
        })
        .collect()
}

fn a_item(i: &Item, r: &mut Option<&mut Rng>) -> ScopeContent {
    match i {
        Item::Dangling(d) => ScopeContent::Block(Block {
            condition: vec![].into(),
            content: d.iter().map(|m| a_decl(m, r)).collect::<Vec<_>>().into(),
        }),
        Item::Block(s, b) => ScopeContent::Block(Block {
            condition: s
                .iter()
                .map(|m: &Sel| Selector { fragments: frags(&m.src(), r).into() })
                .collect::<Vec<_>>()
                .into(),
            content: a_body(b, r).into(),
        }),
        Item::At(a, c) => ScopeContent::Rule(Rule {
            condition: frags(&a.text(), r).into(),
            content: c
                .iter()
                .map(|m| match a_item(m, r) {
                    ScopeContent::Block(b) => RuleBlockContent::Block(b.into()),
                    ScopeContent::Rule(b) => RuleBlockContent::Rule(b.into()),
                })
                .collect::<Vec<_>>()
                .into(),
        }),
        Item::Keyframes(n, f) => ScopeContent::Rule(Rule {
            condition: frags(&format!("@keyframes {n}"), r).into(),
            content: f
                .iter()
                .map(|(s, d)| {
                    RuleBlockContent::Rule(
                        Rule {
                            condition: frags(&s.join(", "), r).into(),
                            content: d.iter().map(|m| a_decl(m, r)).collect::<Vec<_>>().into(),
                        }
                        .into(),
                    )
                })
                .collect::<Vec<_>>()
                .into(),
        }),
    }
}

pub fn sheet(m: &model::Model, mut r: Option<&mut Rng>) -> Sheet {
    m.iter().map(|i| a_item(i, &mut r)).collect::<Vec<_>>().into()
}
