//! Random trees of components, and what they should lead to.
use crate::comps::{Kind, Leaf, Tree, KINDS};
use oracle::css;
use oracle::model::*;
use oracle::rng::Rng;
use std::collections::BTreeMap;
use std::rc::Rc;

/// A text and what it means, scoped (class C) and global.
pub struct Text {
    pub text: Rc<str>,
    pub scoped: String,
    pub global: String,
}

pub struct MgrSpec {
    pub prefix: String,
    pub writer: bool,
}

pub struct World {
    pub mgrs: Vec<MgrSpec>,
    pub trees: Vec<Rc<Tree>>,
    pub leaves: Vec<(Leaf, Option<usize>)>,
    pub medias: Vec<(usize, bool)>,
    /// hydratable ones, in the order they end: (manager, leaves within)
    pub providers: Vec<(usize, std::ops::Range<usize>)>,
    pub shape: String,
}

impl World {
    /// A component that makes a style, below the provider of a manager.
    fn leaf(&mut self, l: &Leaf, ctx: Option<usize>) {
        let at = self.leaves.len();
        let by = match l.kind {
            Kind::PlainCss => None,
            // those with a provider in their output
            Kind::AroundProvider | Kind::Handed => {
                self.providers.push((l.other, 0..0));
                ctx
            }
            Kind::HandedUse | Kind::GlobalHanded => {
                self.providers.push((l.other, at..at + 1));
                Some(l.other)
            }
            _ => ctx,
        };
        self.shape.push_str(&format!("{:?}{} ", l.kind, l.v));
        self.leaves.push((l.clone(), by));
    }
}

pub struct Builder<'a> {
    pub r: &'a mut Rng,
    pub texts: &'a [Text],
    pub n: usize,
    pub mgrs: usize,
    pub globals: bool,
    pub shipping: bool,
    pub raw: bool,
    pub plain: bool,
    pub world: World,
}

impl Builder<'_> {
    fn tree(&mut self, depth: usize, ctx: Option<usize>) -> Rc<Tree> {
        self.n += 1;
        let n = self.n;
        let kids = |s: &mut Self, ctx: Option<usize>| {
            let k = s.r.range(1, 4);
            (0..k).map(|_| s.tree(depth + 1, ctx)).collect::<Vec<_>>()
        };
        let pick = if depth >= 5 { 9 } else if depth == 0 { self.r.below(4) } else { self.r.below(12) };
        Rc::new(match pick {
            0..=2 => {
                let m = self.r.below(self.mgrs);
                let raw = self.r.chance(1, 4) && self.raw;
                self.world.shape.push_str(&format!("P{m}{}(", raw as u8));
                let first = self.world.leaves.len();
                let kids = kids(self, Some(m));
                if !raw {
                    self.world.providers.push((m, first..self.world.leaves.len()));
                }
                self.world.shape.push(')');
                Tree::Provider { m, raw, kids }
            }
            3 => {
                self.world.shape.push_str("G(");
                let k = kids(self, ctx);
                self.world.shape.push(')');
                Tree::Group(k)
            }
            4 => {
                let yields = self.r.below(6);
                self.world.shape.push_str(&format!("L{yields}("));
                let k = kids(self, ctx);
                self.world.shape.push(')');
                Tree::Late { yields, kids: k }
            }
            5 => {
                // (false is shipped as the same bytes as data without styles)
                let fallback = self.shipping || self.r.chance(1, 2);
                self.world.medias.push((n, fallback));
                Tree::Media { n, fallback }
            }
            _ => {
                let kind = loop {
                    let k = *self.r.pick_of(KINDS);
                    let g = k.global();
                    if (!g || self.globals) && (k != Kind::PlainCss || self.plain) {
                        break k;
                    }
                };
                let leaf = Leaf { n, kind, v: self.r.below(4), text: self.texts[self.r.below(self.texts.len())].text.clone(), other: self.r.below(self.mgrs) };
                self.world.leaf(&leaf, ctx);
                Tree::Leaf(leaf)
            }
        })
    }
}

/// What a tree consists of, as [`world`] says.
pub fn collect(t: &Tree, ctx: Option<usize>, w: &mut World) {
    match t {
        Tree::Provider { m, raw, kids } => {
            w.shape.push_str(&format!("P{m}{}(", *raw as u8));
            let first = w.leaves.len();
            kids.iter().for_each(|k| collect(k, Some(*m), w));
            if !raw {
                w.providers.push((*m, first..w.leaves.len()));
            }
            w.shape.push(')');
        }
        Tree::Group(kids) => {
            w.shape.push_str("G(");
            kids.iter().for_each(|k| collect(k, ctx, w));
            w.shape.push(')');
        }
        Tree::Late { yields, kids } => {
            w.shape.push_str(&format!("L{yields}("));
            kids.iter().for_each(|k| collect(k, ctx, w));
            w.shape.push(')');
        }
        Tree::Media { n, fallback } => w.medias.push((*n, *fallback)),
        Tree::Leaf(l) => {
            w.leaf(l, ctx);
        }
    }
}

/// A tree a component could render next: most of it as it was.
pub fn mutate(t: &Rc<Tree>, r: &mut Rng, texts: &[Text], mgrs: usize, swap: bool, next: &mut usize) -> Rc<Tree> {
    let list = |kids: &[Rc<Tree>], r: &mut Rng, next: &mut usize| {
        let mut v: Vec<Rc<Tree>> = kids.iter().map(|k| if r.chance(3, 4) { mutate(k, r, texts, mgrs, swap, next) } else { k.clone() }).collect();
        if r.chance(1, 8) && v.len() > 1 {
            let k = r.below(v.len());
            v.remove(k);
        }
        if r.chance(1, 8) {
            *next += 1;
            let l = leaf(r, *next, texts, mgrs);
            let k = r.below(v.len() + 1);
            v.insert(k, Rc::new(Tree::Leaf(l)));
        }
        if r.chance(1, 12) {
            r.shuffle(&mut v);
        }
        v
    };
    Rc::new(match &**t {
        Tree::Provider { m, raw, kids } => {
            let m = if swap && r.chance(1, 4) { r.below(mgrs) } else { *m };
            Tree::Provider { m, raw: *raw, kids: list(kids, r, next) }
        }
        Tree::Group(kids) => Tree::Group(list(kids, r, next)),
        Tree::Late { yields, kids } => Tree::Late { yields: *yields, kids: list(kids, r, next) },
        Tree::Media { .. } => return t.clone(),
        Tree::Leaf(l) => {
            let mut l = l.clone();
            match r.below(6) {
                0 | 1 => l.v = r.below(4),
                2 | 3 => l.text = texts[r.below(texts.len())].text.clone(),
                4 => {
                    *next += 1;
                    l = leaf(r, *next, texts, mgrs);
                }
                _ => return t.clone(),
            }
            Tree::Leaf(l)
        }
    })
}

fn leaf(r: &mut Rng, n: usize, texts: &[Text], mgrs: usize) -> Leaf {
    let kind = loop {
        let k = *r.pick_of(KINDS);
        if k != Kind::PlainCss {
            break k;
        }
    };
    Leaf { n, kind, v: r.below(4), text: texts[r.below(texts.len())].text.clone(), other: r.below(mgrs) }
}

pub fn decl(k: &str, v: impl ToString) -> Decl {
    Decl { key: k.into(), val: v.to_string() }
}

/// (kind of source, global, meaning, data-n of its element)
pub fn expected(l: &Leaf, texts: &[Text]) -> Vec<(String, bool, String, Option<String>)> {
    let v = l.v;
    let d = |v: Vec<Decl>| Item::Dangling(v);
    let n = Some(l.n.to_string());
    let show = |m: &Model, g: bool| css::unescape(&css::show(&expect_css(m, if g { None } else { Some("C") })));
    let two = |k: &str| vec![d(vec![decl("--v", v), decl(k, 1)])];
    let name = format!("{:?}", l.kind);
    match l.kind {
        Kind::Css => vec![(name, false, show(&vec![d(vec![decl("--v", v)]), Item::Block(vec![Sel(vec![Piece::Amp, Piece::Lit(":hover".into())])], vec![Body::Decl(decl("color", "red"))])], false), n)],
        Kind::CssInline => vec![(name, false, show(&vec![d(vec![decl("--v", v)]), Item::At(At { tag: "@media", cond: "print".into() }, vec![d(vec![decl("color", "red")])])], false), n)],
        Kind::Impl => vec![(name, false, show(&two("--impl"), false), n)],
        Kind::CustomHook => vec![(name, false, show(&two("--hook"), false), n)],
        Kind::UseStyleMacro => vec![(name, false, show(&two("--use"), false), n)],
        Kind::AroundProvider => vec![(name, false, show(&two("--around"), false), n)],
        Kind::PlainCss => vec![(name, false, show(&two("--plain"), false), n)],
        Kind::Generic => vec![(name, false, show(&vec![d(vec![decl("--generic", v)])], false), n)],
        Kind::Waits => vec![(name, false, show(&vec![d(vec![decl("--v", v), decl("--waits", 77)])], false), n)],
        Kind::HandedUse => vec![(name, false, show(&two("--handed-use"), false), n)],
        Kind::GlobalHanded => vec![(name, true, show(&two("--global-handed"), true), None)],
        Kind::Handed => vec![(name, false, show(&two("--handed"), false), n)],
        Kind::Branches => vec![(name, false, show(&vec![d(vec![decl(if v < 2 { "--small" } else { "--large" }, v)])], false), n)],
        Kind::OwnPrefix => {
            let t = texts.iter().find(|t| t.text == l.text).unwrap();
            vec![(format!("own {}", t.text), false, format!("private\n{}", t.scoped), n)]
        }
        Kind::Map => (0..3).map(|i| (format!("Map{i}"), false, show(&vec![d(vec![decl("--v", v), decl("--i", i)])], false), Some(format!("{}.{i}", l.n)))).collect(),
        Kind::UseStyleText | Kind::UseStyleSheet | Kind::UseStyleOwned => {
            let t = texts.iter().find(|t| t.text == l.text).unwrap();
            vec![(format!("text {}", t.text), false, t.scoped.clone(), n)]
        }
        Kind::GlobalText => {
            let t = texts.iter().find(|t| t.text == l.text).unwrap();
            vec![(format!("text {}", t.text), true, t.global.clone(), None)]
        }
        Kind::GlobalMacro => vec![(name, true, show(&vec![d(vec![decl("--v", v)]), Item::Block(vec![Sel::lit(".g")], vec![Body::Decl(decl("width", format!("{v}px")))])], true), None)],
        Kind::GlobalProp => vec![(name, true, show(&two("--global"), true), None)],
    }
}

pub fn read(css: &str) -> String {
    css::read(css).map(|m| css::unescape(&css::show(&m))).unwrap_or_else(|e| format!("unreadable: {e}\n{css}"))
}

/// Attributes of all elements with data-n.
pub fn elements(html: &str) -> Result<BTreeMap<String, BTreeMap<String, String>>, String> {
    let mut out = BTreeMap::new();
    for part in html.split('<').skip(1) {
        let Some(end) = part.find('>') else { continue };
        let tag = &part[..end];
        if !tag.contains("data-n=") {
            continue;
        }
        let mut attrs = BTreeMap::new();
        let mut rest = tag.split_once(' ').map(|m| m.1).unwrap_or("");
        while let Some((k, r)) = rest.split_once("=\"") {
            let (v, r) = r.split_once('"').ok_or("attribute without end")?;
            attrs.insert(k.trim().to_string(), v.to_string());
            rest = r;
        }
        let n = attrs.get("data-n").cloned().ok_or("no data-n")?;
        if out.insert(n.clone(), attrs).is_some() {
            return Err(format!("element {n} rendered twice"));
        }
    }
    Ok(out)
}

pub fn normal(id: &str, css: &str) -> String {
    let css = read(&css.replace(id, "C"));
    match id.starts_with("private-") {
        true => format!("private\n{css}"),
        false => css,
    }
}

/// What the prefix of the manager comes first in.
pub fn home(id: &str) -> &str {
    id.strip_prefix("private-").unwrap_or(id)
}

pub fn world(r: &mut Rng, texts: &[Text], prop: &str) -> World {
    let mgrs = r.range(1, 3);
    let same = r.chance(1, 4);
    let specs = (0..mgrs).map(|i| MgrSpec { prefix: if same { "same".into() } else { format!("{}{i}", r.pick(&["m", "app", "stylist", "my-app", "x_"])) }, writer: r.chance(7, 8) || prop == "P30" }).collect();
    let mut b = Builder { r, texts, n: 0, mgrs, globals: true, shipping: prop == "P22" || prop == "P23", raw: prop != "P30", plain: prop != "P30", world: World { mgrs: specs, trees: vec![], leaves: vec![], medias: vec![], providers: vec![], shape: String::new() } };
    if prop == "P23" || prop == "P22" || prop == "P30" {
        // one provider around everything, most of the time
        if b.r.chance(3, 4) || prop == "P30" {
            let m = b.r.below(mgrs);
            b.world.shape.push_str(&format!("P{m}0("));
            let k = b.r.range(1, 4);
            let kids = (0..k).map(|_| b.tree(1, Some(m))).collect();
            b.world.providers.push((m, 0..b.world.leaves.len()));
            b.world.trees.push(Rc::new(Tree::Provider { m, raw: false, kids }));
            return b.world;
        }
    }
    let t = b.tree(0, None);
    b.world.trees.push(t);
    b.world
}

pub fn texts(r: &mut Rng, n: usize) -> Vec<Text> {
    let mut prof = Profile::full();
    prof.max_items = 3;
    prof.big = 60;
    let mut v: Vec<Text> = vec![];
    while v.len() < n {
        let m = gen_model(r, &prof);
        let text = print(&m, r, 1);
        let scoped = css::unescape(&css::show(&expect_css(&m, Some("C"))));
        if !v.iter().any(|t| t.scoped == scoped) {
            v.push(Text { text: text.into(), scoped, global: css::unescape(&css::show(&expect_css(&m, None))) });
        }
    }
    v
}
