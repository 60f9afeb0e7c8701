//! Links lead where their path says, under every schedule.
use crate::gen::*;
use crate::linked::*;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use wz_reader::property::get_image;
use wz_reader::util::node_util::{get_node_without_parse, get_resolved_uol_path, resolve_inlink, resolve_outlink, resolve_uol};
use wz_reader::util::walk_node;
use wz_reader::WzNodeArc;

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    knobs(p, rng);
    // do other threads unload what links lead to?
    p.set("un", rng.below(3) as i64 / 2);
    p.set("pre", rng.below(3) as i64);
    p.set("hot", rng.below(3) as i64);
    let nt = 1 + rng.below(4);
    for _ in 0..nt {
        let n = 2 + rng.below(if nt == 1 { 12 } else { 7 });
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(20) {
                        0 | 1 => "parse",
                        2..=8 => "img",
                        9..=11 => "str",
                        12 | 13 => "uol",
                        14 => "xuol",
                        15 => "direct",
                        16 => "walk",
                        17 => "none",
                        18 => "unparse",
                        _ => "fwalk",
                    };
                    op(k, rng.next() >> 32, rng.next() >> 32, rng.below(100))
                })
                .collect(),
        );
    }
}
struct Ctx {
    l: Linked,
    root: WzNodeArc,
    un: bool,
    /// the first node seen under a path
    seen: Mutex<BTreeMap<String, WzNodeArc>>,
}
impl Ctx {
    fn nav(&self, p: &str) -> Option<WzNodeArc> {
        let mut n = self.root.clone();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            n = rd(&n, |g| g.at(s))?;
        }
        Some(n)
    }
    /// the node at a path, its image loaded first
    fn load(&self, p: &str) -> Option<WzNodeArc> {
        let mut n = self.root.clone();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            if rd(&n, |g| parsed_flag(&g.object_type)) == Some(false) {
                if let Err(e) = parse(&n) {
                    violate("link", &format!("parsing on the way to {p:?} fails: {e}"));
                }
            }
            n = match rd(&n, |g| g.at(s)) {
                Some(x) => x,
                None if self.un => return None,
                None => violate("link-removed", &format!("{p:?} is not in the tree any more ({s:?} is missing)")),
            };
        }
        if !self.un && !p.is_empty() && !self.l.xuols.iter().any(|x| x.0 == p) {
            let mut g = self.seen.lock().unwrap();
            match g.get(p) {
                Some(o) if !Arc::ptr_eq(o, &n) => {
                    drop(g);
                    violate("link-replaced", &format!("{p:?} is another node than before although nothing was unloaded"))
                }
                Some(_) => {}
                None => {
                    g.insert(p.to_string(), n.clone());
                }
            }
        }
        Some(n)
    }
    /// a node obtained by following a link has to be the one in the tree
    fn is_node(&self, what: &str, got: Option<WzNodeArc>, want: Option<String>, must: bool) {
        count(C_LINK);
        match (got, want) {
            (None, None) => count(C_OKCHECK),
            (None, Some(t)) if must => violate("link-unresolved", &format!("{what} finds nothing, its target {t:?} exists")),
            (None, Some(_)) => {}
            (Some(g), None) => violate("link-wrong", &format!("{what} leads to {:?} although its target does not exist", snap(&g).name)),
            (Some(g), Some(t)) => {
                let m = at_(&self.l.f.root, &t);
                if let Err(e) = check_value(&snap(&g).obj, m) {
                    violate("link-wrong", &format!("{what} must lead to {t:?} but gives another node: {e}"));
                }
                if !self.un {
                    if let Some(n) = self.load(&t) {
                        if !Arc::ptr_eq(&n, &g) {
                            violate("link-wrong", &format!("{what} leads to {:?} and not to the node {t:?}", snap(&g).name));
                        }
                    }
                }
                count(C_OKCHECK);
            }
        }
    }
}
fn at_<'a>(r: &'a M, p: &str) -> &'a M {
    if p.is_empty() {
        r
    } else {
        r.at(p).unwrap()
    }
}
pub fn run(p: &Plan) {
    let l = Linked::make(p);
    let root = l.f.open_arc();
    let mut un = p.knob("un") != 0;
    if !p.threads.iter().flatten().any(|o| o.k == "unparse" || o.k == "fwalk") {
        un = false;
    }
    let c = Arc::new(Ctx { l, root, un, seen: Default::default() });
    {
        // none, some or all images are loaded at the start
        let c = c.clone();
        let pre = p.knob("pre");
        on_thread("load", move || {
            if pre == 0 {
                return;
            }
            for (i, x) in c.l.images.iter().enumerate() {
                if pre == 2 || i % 2 == 0 {
                    if let Some(n) = c.load(x) {
                        if let Err(e) = parse(&n) {
                            violate("link", &format!("parsing {x:?} fails: {e}"));
                        }
                    }
                }
            }
        });
    }
    let hot = p.knob("hot") as u64;
    let c2 = c.clone();
    threads(p, move |_, o| {
        let c = &c2;
        let l = &c.l;
        let pick = |v: &[String]| -> Option<String> {
            let n = if o.c < 30 * hot { v.len().min(2) } else { v.len() } as u64;
            (n > 0).then(|| v[(o.a % n) as usize].clone())
        };
        match o.k.as_str() {
            "parse" => {
                let Some(x) = pick(&l.images) else { return };
                if let Some(n) = c.load(&x) {
                    if let Err(e) = parse(&n) {
                        violate("link", &format!("parsing {x:?} fails: {e}"));
                    }
                }
            }
            "unparse" if c.un => {
                let Some(x) = pick(&l.images) else { return };
                if let Some(n) = c.nav(&x) {
                    unparse(&n);
                }
            }
            "fwalk" if c.un => walk_node(&c.root, true, &|_| {}),
            "walk" => walk_node(&c.root, false, &|_| {}),
            "img" => {
                // canvases with links draw most of the requests
                let linked: Vec<String> = if o.c % 4 == 0 { l.canvases.clone() } else { l.links.iter().map(|x| x.rsplit_once('/').unwrap().0.to_string()).collect() };
                let Some(x) = pick(&linked) else { return };
                let Some(n) = c.load(&x) else { return };
                count(C_LINK);
                let got = get_image(&n);
                if let Err(e) = l.check_image(&x, got, c.un) {
                    violate("link-image", &format!("image of {x:?}: {e}"));
                }
                count(C_OKCHECK);
            }
            "str" => {
                let Some(x) = pick(&l.links) else { return };
                let Some(n) = c.load(&x) else { return };
                let V::Str(s) = &at_(&l.f.root, &x).v else { return };
                // asked with the text node or with the canvas it belongs to
                let from = if o.b % 2 == 0 { n } else { c.load(x.rsplit_once('/').unwrap().0).unwrap_or(n) };
                if x.ends_with("/_inlink") {
                    let want = l.inlink(&x, s);
                    c.is_node(&format!("inlink {s:?} of {x:?}"), resolve_inlink(s, &from), want, !c.un);
                } else if o.b % 3 != 0 {
                    let want = l.outlink(s);
                    // (the last node named is found in its parsed parent)
                    c.is_node(&format!("outlink {s:?} of {x:?}"), resolve_outlink(s, &from, true), want, !c.un);
                } else {
                    let want = l.outlink(s);
                    c.is_node(&format!("outlink {s:?} of {x:?} without parsing"), resolve_outlink(s, &from, false), want, false);
                }
            }
            "uol" => {
                let v: Vec<String> = l.uols.iter().filter(|u| !l.xuols.iter().any(|x| x.0 == **u)).cloned().collect();
                let Some(x) = pick(&v) else { return };
                let ip = image_of(&l.f.root, &x).unwrap();
                let Some(n) = c.load(&x) else { return };
                let inner = &x[ip.len() + 1..];
                let im = at_(&l.f.root, &ip);
                let V::Uol(path) = &at_(&l.f.root, &x).v else { return };
                match crate::model::uol_target(im, inner) {
                    Some(t) => {
                        let full = get_resolved_uol_path(inner, path);
                        // (in words, whatever the names on the way are)
                        let mut named: Vec<&str> = inner.split('/').collect();
                        named.pop();
                        for s in path.split('/') {
                            if s == ".." {
                                named.pop();
                            } else {
                                named.push(s);
                            }
                        }
                        if full != named.join("/") {
                            violate("uol-path", &format!("UOL {path:?} at {inner:?} is resolved to {full:?} and not {named:?}"));
                        }
                        c.is_node(&format!("UOL {path:?} at {x:?}"), Some(n), Some(join(&ip, &t)), true);
                    }
                    None => {
                        // stays what it is, also when asked for
                        if let Err(e) = check_value(&snap(&n).obj, at_(&l.f.root, &x)) {
                            violate("link-wrong", &format!("UOL {path:?} at {x:?} leads nowhere but: {e}"));
                        }
                        resolve_uol(&n, None);
                        if let Some(k) = c.load(&x) {
                            if let Err(e) = check_value(&snap(&k).obj, at_(&l.f.root, &x)) {
                                violate("link-wrong", &format!("UOL {path:?} at {x:?} leads nowhere but after resolving it: {e}"));
                            }
                        }
                        count(C_OKCHECK);
                    }
                }
            }
            "xuol" => {
                let v: Vec<String> = l.xuols.iter().map(|x| x.0.clone()).collect();
                let Some(x) = pick(&v) else { return };
                let t = &l.xuols.iter().find(|y| y.0 == x).unwrap().1;
                let V::Uol(path) = &at_(&l.f.root, &x).v else { return };
                let gone = path.ends_with("/gone");
                let Some(n) = c.load(&x) else { return };
                // the image it leads into has to be loaded by the caller
                let loaded = o.b % 3 != 0 && c.load(t).is_some();
                resolve_uol(&n, None);
                let Some(now) = c.load(&x) else { return };
                let s = snap(&now);
                if kind_name(&s.obj) == "uol" {
                    if loaded && !gone && !c.un {
                        violate("link-unresolved", &format!("UOL {path:?} at {x:?} is not resolved, its target {t:?} exists"));
                    }
                    if let Err(e) = check_value(&s.obj, at_(&l.f.root, &x)) {
                        violate("link-wrong", &format!("UOL at {x:?}: {e}"));
                    }
                } else {
                    c.is_node(&format!("UOL {path:?} at {x:?}"), Some(now), (!gone).then(|| t.clone()), true);
                }
            }
            "direct" => {
                // a canvas looked up without loading its image
                let Some(x) = pick(&l.canvases) else { return };
                let m = at_(&l.f.root, &x);
                if c.load(&image_of(&l.f.root, &x).unwrap()).is_none() {
                    return;
                }
                let got = get_node_without_parse(&c.root, &x);
                if let (Some(n), false) = (got, c.un) {
                    if let Err(e) = check_value(&snap(&n).obj, m) {
                        violate("link-wrong", &format!("{x:?} looked up directly: {e}"));
                    }
                }
            }
            "none" => {
                // links that lead nowhere leave everything as it was
                let Some(x) = pick(&l.canvases) else { return };
                let Some(n) = c.load(&x) else { return };
                for s in ["", "no/such/thing", "..", "/", "0/1/2/3"] {
                    let w = l.inlink(&x, s);
                    c.is_node(&format!("inlink {s:?} of {x:?}"), resolve_inlink(s, &n), w, !c.un);
                    let w = l.outlink(s);
                    c.is_node(&format!("outlink {s:?} of {x:?}"), resolve_outlink(s, &n, o.b % 2 == 0), w, false);
                }
                resolve_uol(&n, None);
            }
            _ => {}
        }
    });
    // every UOL out of its image is what it was or its target
    for (x, t) in &c.l.xuols {
        if let Some(n) = c.nav(x) {
            let s = snap(&n);
            let m = at_(&c.l.f.root, if kind_name(&s.obj) == "uol" { x } else { t });
            if let Err(e) = check_value(&s.obj, m) {
                violate("link-wrong", &format!("at the end UOL {x:?} is another node: {e}"));
            }
        }
    }
    // nothing was removed or replaced by following links
    if !c.un && c.l.xuols.is_empty() {
        let h = must_match("final-tree", &c.l.f.path, &c.root, &c.l.f.root, FULL);
        for (k, n) in c.seen.lock().unwrap().iter() {
            if h.get(k).is_some_and(|x| !Arc::ptr_eq(x, n)) {
                violate("link-replaced", &format!("{k:?} is another node at the end although nothing was unloaded"));
            }
        }
        for x in &c.l.canvases {
            let got = get_image(&h[x]);
            if let Err(e) = c.l.check_image(x, got, false) {
                violate("link-image", &format!("at the end, image of {x:?}: {e}"));
            }
        }
    } else {
        for x in &c.l.images {
            if let Some(n) = c.nav(x) {
                unparse(&n);
            }
        }
        must_match("final-tree", &c.l.f.path, &c.root, &c.l.f.root, FULL);
    }
}
