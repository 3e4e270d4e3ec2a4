//! The components: every way of making a style within a component.
use std::rc::Rc;
use stylist::ast::Sheet;
use stylist::manager::StyleManager;
use stylist::yew::{styled_component, styled_component_impl, use_prepared_media_query, use_style, Global, ManagerProvider};
use stylist::{Style, StyleSource};
use yew::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Css,
    CssInline,
    Impl,
    CustomHook,
    UseStyleMacro,
    UseStyleText,
    UseStyleSheet,
    UseStyleOwned,
    Map,
    AroundProvider,
    PlainCss,
    OwnPrefix,
    Handed,
    HandedUse,
    Generic,
    Waits,
    Branches,
    GlobalText,
    GlobalMacro,
    GlobalProp,
    GlobalHanded,
}

impl Kind {
    pub fn global(self) -> bool {
        matches!(self, Kind::GlobalText | Kind::GlobalMacro | Kind::GlobalProp | Kind::GlobalHanded)
    }
}

pub const KINDS: &[Kind] = &[
    Kind::Css,
    Kind::CssInline,
    Kind::Impl,
    Kind::CustomHook,
    Kind::UseStyleMacro,
    Kind::UseStyleText,
    Kind::UseStyleSheet,
    Kind::UseStyleOwned,
    Kind::Map,
    Kind::AroundProvider,
    Kind::PlainCss,
    Kind::OwnPrefix,
    Kind::Handed,
    Kind::HandedUse,
    Kind::Generic,
    Kind::Waits,
    Kind::Branches,
    Kind::GlobalText,
    Kind::GlobalMacro,
    Kind::GlobalProp,
    Kind::GlobalHanded,
];

#[derive(Clone, Debug, PartialEq)]
pub struct Leaf {
    pub n: usize,
    pub kind: Kind,
    /// the value interpolated into macros
    pub v: usize,
    /// the text of those made from text
    pub text: Rc<str>,
    /// for AroundProvider: the other manager
    pub other: usize,
}

#[derive(Clone, Debug)]
pub enum Tree {
    Provider { m: usize, raw: bool, kids: Vec<Rc<Tree>> },
    Group(Vec<Rc<Tree>>),
    Late { yields: usize, kids: Vec<Rc<Tree>> },
    Leaf(Leaf),
    Media { n: usize, fallback: bool },
}

#[derive(Clone)]
pub struct Mgrs(pub Rc<Vec<StyleManager>>);
impl PartialEq for Mgrs {
    fn eq(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
}

#[derive(Properties, Clone)]
pub struct NodeProps {
    pub tree: Rc<Tree>,
    pub mgrs: Mgrs,
}
impl PartialEq for NodeProps {
    fn eq(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.tree, &o.tree) && self.mgrs == o.mgrs
    }
}

fn list(kids: &[Rc<Tree>], mgrs: &Mgrs) -> Html {
    kids.iter().map(|k| html! { <Node tree={k.clone()} mgrs={mgrs.clone()} /> }).collect()
}

#[component]
pub fn Node(p: &NodeProps) -> Html {
    match &*p.tree {
        Tree::Provider { m, raw: false, kids } => html! { <ManagerProvider manager={p.mgrs.0[*m].clone()}>{list(kids, &p.mgrs)}</ManagerProvider> },
        Tree::Provider { m, raw: true, kids } => {
            html! { <ContextProvider<StyleManager> context={p.mgrs.0[*m].clone()}>{list(kids, &p.mgrs)}</ContextProvider<StyleManager>> }
        }
        Tree::Group(kids) => html! { <div>{list(kids, &p.mgrs)}</div> },
        Tree::Late { yields, kids } => html! { <Suspense><Late yields={*yields}>{list(kids, &p.mgrs)}</Late></Suspense> },
        Tree::Media { n, fallback } => html! { <Suspense><MediaComp n={*n} fallback={*fallback} /></Suspense> },
        Tree::Leaf(l) => {
            let leaf = l.clone();
            let mgrs = p.mgrs.clone();
            match l.kind {
                Kind::Css => html! { <CssComp {leaf} {mgrs} /> },
                Kind::CssInline => html! { <CssInlineComp {leaf} {mgrs} /> },
                Kind::Impl => html! { <ImplComp {leaf} {mgrs} /> },
                Kind::CustomHook => html! { <CustomHookComp {leaf} {mgrs} /> },
                Kind::UseStyleMacro => html! { <UseStyleMacroComp {leaf} {mgrs} /> },
                Kind::UseStyleText => html! { <UseStyleTextComp {leaf} {mgrs} /> },
                Kind::UseStyleSheet => html! { <UseStyleSheetComp {leaf} {mgrs} /> },
                Kind::UseStyleOwned => html! { <UseStyleOwnedComp {leaf} {mgrs} /> },
                Kind::Map => html! { <MapComp {leaf} {mgrs} /> },
                Kind::AroundProvider => html! { <AroundComp {leaf} {mgrs} /> },
                Kind::PlainCss => html! { <PlainComp {leaf} {mgrs} /> },
                Kind::OwnPrefix => html! { <OwnComp {leaf} {mgrs} /> },
                Kind::Handed => html! { <HandComp {leaf} {mgrs} /> },
                Kind::Generic if l.v % 2 == 0 => html! { <GenericComp<u8> {leaf} {mgrs} what={l.v as u8} /> },
                Kind::Generic => html! { <GenericComp<String> {leaf} {mgrs} what={l.v.to_string()} /> },
                Kind::Waits => html! { <Suspense><WaitComp {leaf} {mgrs} /></Suspense> },
                Kind::HandedUse => html! { <HandUseComp {leaf} {mgrs} /> },
                Kind::Branches => html! { <BranchComp {leaf} {mgrs} /> },
                Kind::GlobalText => html! { <Global css={l.text.to_string()} /> },
                Kind::GlobalMacro => html! { <Global css={stylist::css!("--v: ${v}; .g { width: ${v}px; }", v = l.v)} /> },
                Kind::GlobalProp => html! { <GlobalComp {leaf} {mgrs} /> },
                Kind::GlobalHanded => html! { <GlobalHandComp {leaf} {mgrs} /> },
            }
        }
    }
}

#[derive(Properties, PartialEq)]
pub struct LateProps {
    pub yields: usize,
    pub children: Html,
}

/// Lets others go on first.
async fn turn() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        std::task::Poll::Ready(())
    })
    .await
}

/// Suspends for a while first.
#[component]
pub fn Late(p: &LateProps) -> HtmlResult {
    let yields = p.yields;
    let _ = use_prepared_state!(
        (),
        async move |_| -> u8 {
            for _ in 0..yields {
                turn().await;
            }
            77
        }
    )?;
    Ok(p.children.clone())
}

#[derive(Properties, PartialEq)]
pub struct MediaProps {
    pub n: usize,
    pub fallback: bool,
}

thread_local! {
    /// what each media query of this thread said, in order
    static SAID: std::cell::RefCell<Vec<(usize, bool)>> = const { std::cell::RefCell::new(vec![]) };
}

pub fn said(n: usize) -> Vec<bool> {
    SAID.with(|s| s.borrow().iter().filter(|m| m.0 == n).map(|m| m.1).collect())
}

#[component]
pub fn MediaComp(p: &MediaProps) -> HtmlResult {
    let wide = use_prepared_media_query("(min-width: 400px)", p.fallback)?;
    SAID.with(|s| s.borrow_mut().push((p.n, wide)));
    Ok(html! { <u data-n={p.n.to_string()} data-wide={wide.to_string()}></u> })
}

#[derive(Properties, PartialEq, Clone)]
pub struct LeafProps {
    pub leaf: Leaf,
    pub mgrs: Mgrs,
}

fn n(p: &LeafProps) -> String {
    p.leaf.n.to_string()
}

#[styled_component]
pub fn CssComp(p: &LeafProps) -> Html {
    html! { <i data-n={n(p)} class={css!("--v: ${v}; &:hover { color: red; }", v = p.leaf.v)}></i> }
}

#[styled_component(CssInlineComp)]
pub fn css_inline(p: &LeafProps) -> Html {
    let class = css! {
        --v: ${p.leaf.v};
        @media print {
            color: red;
        }
    };
    html! { <i data-n={n(p)} class={classes!("other", class)}></i> }
}

#[styled_component_impl]
#[component]
pub fn ImplComp(p: &LeafProps) -> Html {
    let make = move |v: usize| css!("--v: ${v}; --impl: 1;", v = v);
    html! { <i data-n={n(p)} class={make(p.leaf.v)}></i> }
}

#[styled_component_impl]
#[hook]
fn use_my_style(v: usize) -> Classes {
    css!("--v: ${v}; --hook: 1;", v = v).into()
}

#[component]
pub fn CustomHookComp(p: &LeafProps) -> Html {
    let class = use_my_style(p.leaf.v);
    html! { <i data-n={n(p)} class={class}></i> }
}

#[component]
pub fn UseStyleMacroComp(p: &LeafProps) -> Html {
    let style = stylist::yew::use_style!("--v: ${v}; --use: 1;", v = p.leaf.v);
    html! { <i data-n={n(p)} class={style}></i> }
}

#[component]
pub fn UseStyleTextComp(p: &LeafProps) -> Html {
    let style = use_style(&*p.leaf.text);
    html! { <i data-n={n(p)} class={style.get_class_name().to_string()}></i> }
}

#[component]
pub fn UseStyleSheetComp(p: &LeafProps) -> Html {
    let sheet: Sheet = p.leaf.text.parse().unwrap();
    let style = use_style(sheet);
    html! { <i data-n={n(p)} class={classes!(style)}></i> }
}

#[component]
pub fn UseStyleOwnedComp(p: &LeafProps) -> Html {
    let source: StyleSource = p.leaf.text.to_string().try_into().unwrap();
    let style = use_style(source);
    html! { <i data-n={n(p)} class={style}></i> }
}

#[styled_component]
pub fn MapComp(p: &LeafProps) -> Html {
    (0..3).map(|i| html! { <i data-n={format!("{}.{i}", p.leaf.n)} class={css!("--v: ${v}; --i: ${i};", v = p.leaf.v, i = i)}></i> }).collect()
}

/// The class belongs to the component, although its element is within another provider.
#[styled_component]
pub fn AroundComp(p: &LeafProps) -> Html {
    html! {
        <ManagerProvider manager={p.mgrs.0[p.leaf.other].clone()}>
            <i data-n={n(p)} class={css!("--v: ${v}; --around: 1;", v = p.leaf.v)}></i>
        </ManagerProvider>
    }
}

/// Not a styled component: the macro knows of no manager.
#[component]
pub fn PlainComp(p: &LeafProps) -> Html {
    html! { <i data-n={n(p)} class={stylist::css!("--v: ${v}; --plain: 1;", v = p.leaf.v)}></i> }
}

/// Creates a style of its own with the manager it finds.
#[component]
pub fn OwnComp(p: &LeafProps) -> Html {
    let mgr = use_context::<StyleManager>().unwrap_or_default();
    let style = Style::create_with_manager(format!("private-{}", mgr.prefix()), &*p.leaf.text, &mgr).unwrap();
    html! { <i data-n={n(p)} class={style}></i> }
}

#[derive(Properties, PartialEq, Clone)]
pub struct TakesProps {
    pub n: String,
    pub css: StyleSource,
    #[prop_or_default]
    pub class: Classes,
}

#[component]
pub fn Takes(p: &TakesProps) -> Html {
    html! { <i data-n={p.n.clone()} class={classes!(p.css.clone(), p.class.clone())}></i> }
}

/// The style is made here and used by a component within another provider.
#[styled_component]
pub fn HandComp(p: &LeafProps) -> Html {
    html! {
        <ManagerProvider manager={p.mgrs.0[p.leaf.other].clone()}>
            <Takes n={n(p)} css={css!("--v: ${v}; --handed: 1;", v = p.leaf.v)} class="other" />
        </ManagerProvider>
    }
}

#[derive(Properties, PartialEq, Clone)]
pub struct GenericProps<T: PartialEq> {
    pub leaf: Leaf,
    pub mgrs: Mgrs,
    pub what: T,
}

/// With type parameters and attributes.
#[allow(unused_mut)]
#[styled_component]
pub fn GenericComp<T>(p: &GenericProps<T>) -> Html
where
    T: PartialEq + std::fmt::Display + 'static,
{
    let mut class = css!("--generic: ${v};", v = p.what);
    html! { <i data-n={p.leaf.n.to_string()} class={class}></i> }
}

/// Its first renderings are given up.
#[styled_component]
pub fn WaitComp(p: &LeafProps) -> HtmlResult {
    let yields = p.leaf.n % 4;
    let seen = use_prepared_state!(
        (),
        async move |_| -> u8 {
            for _ in 0..yields {
                turn().await;
            }
            77
        }
    )?;
    // what a client does not find was not prepared
    let waits = seen.as_deref().copied().unwrap_or(77);
    Ok(html! { <i data-n={n(p)} class={css!("--v: ${v}; --waits: ${waits};", v = p.leaf.v, waits = waits)}></i> })
}

#[component]
pub fn Uses(p: &TakesProps) -> Html {
    let style = use_style(p.css.clone());
    html! { <i data-n={p.n.clone()} class={style}></i> }
}

/// The source is made here, but the style by a component within another provider.
#[styled_component]
pub fn HandUseComp(p: &LeafProps) -> Html {
    html! {
        <ManagerProvider manager={p.mgrs.0[p.leaf.other].clone()}>
            <Uses n={n(p)} css={css!("--v: ${v}; --handed-use: 1;", v = p.leaf.v)} />
        </ManagerProvider>
    }
}

/// As above, with a global style.
#[styled_component]
pub fn GlobalHandComp(p: &LeafProps) -> Html {
    let css = css!("--v: ${v}; --global-handed: 1;", v = p.leaf.v);
    html! {
        <ManagerProvider manager={p.mgrs.0[p.leaf.other].clone()}>
            <Global {css} />
        </ManagerProvider>
    }
}

#[styled_component]
pub fn BranchComp(p: &LeafProps) -> Html {
    fn small(v: usize) -> bool {
        v < 2
    }
    let class: Option<Classes> = if small(p.leaf.v) { Some(css!("--small: ${v};", v = p.leaf.v).into()) } else { None };
    let class = match class {
        Some(c) => c,
        None => {
            let make = |v: usize| -> Classes { css!(--large: ${v};).into() };
            make(p.leaf.v)
        }
    };
    html! { <i data-n={n(p)} {class}></i> }
}

#[styled_component]
pub fn GlobalComp(p: &LeafProps) -> Html {
    // also made with the manager of the component, but then given to Global
    html! { <><Global css={css!("--v: ${v}; --global: 1;", v = p.leaf.v)} /><b></b></> }
}

#[derive(Properties, Clone, PartialEq)]
pub struct RootProps {
    pub start: NodeProps,
}

thread_local! {
    static ROOT: std::cell::RefCell<Option<UseStateSetter<Option<Rc<Tree>>>>> = const { std::cell::RefCell::new(None) };
}

/// Renders a tree, and others later.
#[component]
pub fn Root(p: &RootProps) -> Html {
    let first = p.start.tree.clone();
    let tree = use_state(move || Some(first));
    ROOT.with(|r| *r.borrow_mut() = Some(tree.setter()));
    match &*tree {
        Some(t) => html! { <Suspense><Node tree={t.clone()} mgrs={p.start.mgrs.clone()} /></Suspense> },
        None => html! { <p></p> },
    }
}

/// Has the root render another tree.
pub fn show(t: Option<Rc<Tree>>) {
    ROOT.with(|r| r.borrow().clone()).expect("no root").set(t);
}

/// Forgets the root, which is gone.
pub fn forget() {
    ROOT.with(|r| r.borrow_mut().take());
}

#[derive(Properties, Clone, PartialEq)]
pub struct WatchProps {
    pub n: usize,
    pub query: Rc<str>,
    pub prepared: Option<bool>,
}

/// Shows what a media query says, and how often it was rendered.
#[component]
pub fn Watch(p: &WatchProps) -> Html {
    match p.prepared {
        Some(fallback) => html! { <Suspense><PreparedWatch n={p.n} query={p.query.clone()} {fallback} /></Suspense> },
        None => html! { <PlainWatch n={p.n} query={p.query.clone()} fallback={false} /> },
    }
}

#[derive(Properties, Clone, PartialEq)]
pub struct WatchInnerProps {
    pub n: usize,
    pub query: Rc<str>,
    pub fallback: bool,
}

#[component]
fn PreparedWatch(p: &WatchInnerProps) -> HtmlResult {
    let says = use_prepared_media_query(&p.query, p.fallback)?;
    Ok(html! { <u data-n={p.n.to_string()} data-query={p.query.to_string()} data-says={says.to_string()}></u> })
}

#[component]
fn PlainWatch(p: &WatchInnerProps) -> Html {
    let says = stylist::yew::use_media_query(&p.query);
    html! { <u data-n={p.n.to_string()} data-query={p.query.to_string()} data-says={says.to_string()}></u> }
}

#[derive(Properties, Clone, PartialEq)]
pub struct WatchesProps {
    pub list: Vec<WatchProps>,
}

thread_local! {
    static WATCHES: std::cell::RefCell<Option<UseStateSetter<Vec<WatchProps>>>> = const { std::cell::RefCell::new(None) };
}

#[component]
pub fn Watches(p: &WatchesProps) -> Html {
    let list = p.list.clone();
    let list = use_state(move || list);
    WATCHES.with(|r| *r.borrow_mut() = Some(list.setter()));
    list.iter().map(|w| html! { <Watch key={w.n} ..w.clone() /> }).collect()
}

pub fn watch(l: Vec<WatchProps>) {
    WATCHES.with(|r| r.borrow().clone()).expect("no root").set(l);
}

/// Forgets the root, which is gone.
pub fn forget_watches() {
    WATCHES.with(|r| r.borrow_mut().take());
}

thread_local! {
    static FRESH: std::cell::Cell<usize> = const { std::cell::Cell::new(1_000_000) };
}

/// A number that has not been given before, of the same length.
pub fn fresh() -> usize {
    FRESH.with(|f| f.replace(f.get() + 1))
}

/// The same tree with other values, and nothing new for the default manager, which stays.
pub fn refresh(t: &Rc<Tree>) -> Rc<Tree> {
    Rc::new(Tree::Provider { m: 0, raw: false, kids: vec![other_values(t)] })
}

fn other_values(t: &Rc<Tree>) -> Rc<Tree> {
    let all = |k: &[Rc<Tree>]| k.iter().map(other_values).collect();
    Rc::new(match &**t {
        Tree::Provider { m, raw, kids } => Tree::Provider { m: *m, raw: *raw, kids: all(kids) },
        Tree::Group(kids) => Tree::Group(all(kids)),
        Tree::Late { yields, kids } => Tree::Late { yields: *yields, kids: all(kids) },
        Tree::Leaf(l) if l.kind == Kind::PlainCss => return t.clone(),
        Tree::Leaf(l) => Tree::Leaf(Leaf { v: fresh(), ..l.clone() }),
        Tree::Media { n, fallback } => Tree::Media { n: *n, fallback: *fallback },
    })
}
