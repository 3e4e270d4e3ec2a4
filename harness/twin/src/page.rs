//! A tree of components rendered on the server.
use crate::Ids;
use oracle::rng::Rng;
use std::rc::Rc;
use stylist::manager::{render_static, StyleManager};
use trees::comps::{Mgrs, Node, NodeProps};
use trees::world::{home, texts, world};

/// The markup with numbered ids; classes that say where a style was made are left out.
fn numbered(html: &str, ids: &mut Ids) -> String {
    let mut o = String::new();
    for (i, part) in html.split("class=\"").enumerate() {
        if i == 0 {
            o.push_str(part);
            continue;
        }
        let (classes, rest) = part.split_once('"').unwrap_or((part, ""));
        o.push_str("class=\"");
        for c in classes.split(' ').filter(|c| !c.contains(".rs:")) {
            let prefix = home(c).rsplit_once("-style-").map(|m| m.0).or(home(c).rsplit_once('-').map(|m| m.0));
            match prefix {
                Some(p) => o.push_str(&format!("{p}#{} ", ids.no(c))),
                None => o.push_str(&format!("{c} ")),
            }
        }
        o.push('"');
        o.push_str(rest);
    }
    o
}

pub fn run(r: &mut Rng) -> String {
    let tx = texts(r, 4);
    let hydratable = r.chance(1, 2);
    let w = world(r, &tx, if hydratable { "P23" } else { "P21" });
    let (mut readers, mut mgrs) = (vec![], vec![]);
    for s in &w.mgrs {
        let mut b = StyleManager::builder().prefix(s.prefix.clone().into());
        if s.writer {
            let (wr, rd) = render_static();
            b = b.writer(wr);
            readers.push(rd);
        }
        mgrs.push(b.build().unwrap());
    }
    let props = NodeProps { tree: w.trees[0].clone(), mgrs: Mgrs(Rc::new(mgrs.clone())) };
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let html = tokio::task::LocalSet::new().block_on(&rt, async { yew::LocalServerRenderer::<Node>::with_props(props).hydratable(hydratable).render().await });
    let mut plain = String::new();
    for (i, part) in html.split("<script type=\"application/x-yew-comp-state\">").enumerate() {
        plain.push_str(if i == 0 { part } else { part.split_once("</script>").map_or(part, |m| m.1) });
    }
    // comments name the types of components, with debug assertions
    let plain: String = plain.split("<!--").enumerate().map(|(i, m)| if i == 0 { m } else { m.split_once("-->").map_or(m, |m| m.1) }).collect();
    let mut ids = Ids::default();
    let mut o = numbered(&plain, &mut ids);
    for rd in readers {
        let mut m = String::new();
        rd.read_style_data().write_static_markup(&mut m).unwrap();
        for (k, id) in ids.longest_first() {
            m = m.replace(id.as_str(), &format!("#{k}#"));
        }
        // what was made for no element
        let mut rest = vec![];
        for part in m.split("<style data-style=\"").skip(1) {
            let (id, css) = part.split_once('"').unwrap();
            match id.starts_with('#') {
                true => rest.push(format!("{id}{css}")),
                false => rest.push(format!("{}{}", if id.contains("-global-") { "global" } else { "style" }, css.replace(id, "C"))),
            }
        }
        o.push('\n');
        o.push_str(&rest.join("\n"));
    }
    o
}
