//! Merging trees loses, duplicates and misparents nothing.
use crate::gen::*;
use crate::model;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use wz_reader::property::{Vector2D, WzSubProperty, WzValue};
use wz_reader::util::walk_node;
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    p.set("wseed", rng.below(1 << 40) as i64);
    p.set("kids", 2 + rng.below(6) as i64);
    p.set("pdepth", 1 + rng.below(3) as i64);
    p.set("big", *rng.pick(&[20, 60]));
    p.set("side", 4);
    p.set("links", 0);
    p.set("depth", rng.below(3) as i64);
    p.set("width", 1 + rng.below(6) as i64);
    // archives, images, made by hand, two folders of one archive
    p.set("kind", *rng.pick(&[0, 0, 0, 1, 1, 2, 3]));
    let ns = 1 + rng.below(2);
    p.set("sources", ns as i64);
    p.set("form", *rng.pick(&[0, 1, 2, 6]));
    // images: untouched, read while merging, loaded before
    p.set("images", rng.below(3) as i64);
    p.set("shared", rng.chance(1, 4) as i64);
    // how much the trees have in common
    p.set("common", *rng.pick(&[0, 1, 2, 2, 3]));
    p.set("again", rng.below(2) as i64);
    let nt = *rng.pick(&[1, 2, 2, 3]);
    let mut ths: Vec<Vec<Op>> = (0..nt)
        .map(|_| {
            (0..2 + rng.below(6))
                .map(|_| {
                    let k = match rng.below(12) {
                        0..=3 => "state",
                        4 | 5 => "value",
                        6 | 7 => "look",
                        8 => "walk",
                        9 | 10 => "parse",
                        _ => "path",
                    };
                    op(k, rng.below(ns), rng.next() >> 32, rng.next() >> 32)
                })
                .collect()
        })
        .collect();
    for s in 0..ns {
        let t = rng.below(nt) as usize;
        let at = rng.below(ths[t].len() as u64 + 1) as usize;
        ths[t].insert(at, op("merge", s, 0, 0));
    }
    p.threads = ths;
}
fn container(v: &V) -> bool {
    matches!(v, V::Dir | V::Img | V::Prop | V::Canvas(_) | V::Convex | V::Raw(_))
}
/// give `s` some of what `d` has
fn overlap(d: &M, s: &mut M, sh: &model::Shape, common: u64, rng: &mut Rng) {
    for k in &d.kids {
        if !rng.chance(common, 4) || s.kid(&k.name).is_some() {
            continue;
        }
        let mut n = match &k.v {
            V::Dir => M::new(&k.name, V::Dir),
            V::Img => model::image(&k.name, sh, rng),
            V::Prop if rng.chance(3, 4) => M::new(&k.name, V::Prop),
            _ if s.v == V::Convex || d.v == V::Convex => continue,
            _ => model::prop(&k.name, sh, 1, rng),
        };
        match n.v {
            V::Dir => {
                if rng.chance(2, 3) {
                    n.kids.extend(model::dir("x", sh, 0, 3, rng).kids.into_iter().filter(|x| k.kid(&x.name).is_none()));
                }
                overlap(k, &mut n, sh, common, rng);
            }
            V::Prop => {
                let x = model::image("x.img", sh, rng);
                if !x.kids.iter().any(|y| matches!(y.v, V::Text(_) | V::Lua(_))) {
                    for y in x.kids {
                        if n.kid(&y.name).is_none() {
                            n.kids.push(y);
                        }
                    }
                }
                overlap(k, &mut n, sh, common, rng);
            }
            V::Img if matches!(n.kids.first(), Some(M { v: V::Text(_) | V::Lua(_), .. })) => {}
            V::Img if !matches!(k.kids.first(), Some(M { v: V::Text(_) | V::Lua(_), .. })) => overlap(k, &mut n, sh, common, rng),
            _ => {}
        }
        s.kids.push(n);
    }
}
fn img(nm: &str, sh: &model::Shape, rng: &mut Rng) -> M {
    loop {
        let r = model::image(nm, sh, rng);
        if !matches!(r.kids.first(), Some(M { v: V::Text(_) | V::Lua(_), .. })) {
            return r;
        }
    }
}
fn made(m: &M, parent: Option<&WzNodeArc>) -> WzNodeArc {
    let o: WzObjectType = match &m.v {
        V::Short(x) => WzObjectType::Value(WzValue::Short(*x)),
        V::Int(x) => WzObjectType::Value(WzValue::Int(*x)),
        V::Long(x) => WzObjectType::Value(WzValue::Long(*x)),
        V::Float(x) => WzObjectType::Value(WzValue::Float(*x)),
        V::Double(x) => WzObjectType::Value(WzValue::Double(*x)),
        V::Vec2(x, y) => WzObjectType::Value(WzValue::Vector(Vector2D(*x, *y))),
        V::Null => WzObjectType::Value(WzValue::Null),
        V::Convex => WzObjectType::Property(WzSubProperty::Convex),
        _ => WzObjectType::Property(WzSubProperty::Property),
    };
    let n = WzNode::from_str(&m.name, o, parent).into_lock();
    for k in &m.kids {
        let k = made(k, Some(&n));
        wr(&n, |g| g.add(&k));
    }
    n
}
/// only what can be made by hand
fn plain(m: &mut M) {
    m.v = match &m.v {
        V::Short(_) | V::Int(_) | V::Long(_) | V::Float(_) | V::Double(_) | V::Vec2(..) | V::Null | V::Convex => m.v.clone(),
        V::Str(s) | V::Uol(s) => V::Int(s.len() as i32),
        _ => V::Prop,
    };
    m.kids.iter_mut().for_each(plain);
}
struct Tree {
    /// the node whose children are moved, or that they are moved to
    node: WzNodeArc,
    /// its file, kept until the end of the merge
    top: Mutex<Option<WzNodeArc>>,
    m: M,
    h: BTreeMap<String, WzNodeArc>,
    path: String,
}
struct Ctx {
    d: Tree,
    s: Vec<Tree>,
    deep: bool,
    free_imgs: Vec<(usize, String)>,
    done: Mutex<Vec<bool>>,
}
impl Ctx {
    fn tree(&self, i: usize) -> &Tree {
        if i == 0 {
            &self.d
        } else {
            &self.s[i - 1]
        }
    }
}
fn names(m: &M) -> BTreeSet<String> {
    m.kids.iter().map(|k| k.name.clone()).collect()
}
fn got(n: &WzNodeArc) -> BTreeSet<String> {
    snap(n).kids.into_iter().map(|k| k.0).collect()
}
/// what merging gives: the model, and which node stands at each path
fn merged(d: &mut M, s: &M, at: &str, deep: bool, dh: &mut BTreeMap<String, WzNodeArc>, sh: &BTreeMap<String, WzNodeArc>) {
    if s.v == V::Img && !at.is_empty() && !deep {
        return;
    }
    for k in &s.kids {
        let p = join(at, &k.name);
        if let Some(i) = d.kids.iter().position(|x| x.name == k.name) {
            merged(&mut d.kids[i], k, &p, deep, dh, sh);
        } else {
            d.kids.push(k.clone());
            for (q, h) in sh {
                if *q == p || q.starts_with(&format!("{p}/")) {
                    dh.insert(q.clone(), h.clone());
                }
            }
        }
    }
}
fn make(p: &Plan) -> (Tree, Vec<Tree>) {
    let mut rng = Rng::new(p.knob("wseed") as u64);
    let sh = shape_of(p);
    let common = p.knob("common") as u64;
    let ns = p.knob("sources") as usize;
    let how = if p.knob("images") == 2 { LOAD } else { LISTING };
    let loaded = |n: &WzNodeArc, m: &M, how: How, what: &str| must_match("load", what, n, m, how);
    let nav = |root: &WzNodeArc, path: &str| {
        let mut n = root.clone();
        for s in path.split('/').filter(|s| !s.is_empty()) {
            n = rd(&n, |g| g.at(s)).unwrap();
        }
        n
    };
    let under = |root: &M, h: BTreeMap<String, WzNodeArc>, path: &str| -> (M, BTreeMap<String, WzNodeArc>) {
        let m = if path.is_empty() { root.clone() } else { root.at(path).unwrap().clone() };
        let h = if path.is_empty() {
            h
        } else {
            h.into_iter().filter_map(|(k, v)| if k == path { Some((String::new(), v)) } else { k.strip_prefix(&format!("{path}/")).map(|k| (k.to_string(), v)) }).collect()
        };
        (m, h)
    };
    let pick = |m: &M, rng: &mut Rng, f: &dyn Fn(&M) -> bool| -> String {
        let mut v = m.paths_where(|x| f(x));
        v.push(String::new());
        v.push(String::new());
        v[rng.below(v.len() as u64) as usize].clone()
    };
    fn at<'a>(m: &'a mut M, p: &str) -> &'a mut M {
        if p.is_empty() {
            m
        } else {
            m.at_mut(p).unwrap()
        }
    }
    let mut out: Vec<Tree> = vec![];
    match p.knob("kind") {
        0 => {
            let mut roots: Vec<(M, String)> = vec![];
            for i in 0..=ns {
                let mut r = model::dir(&format!("F{i}"), &sh, p.knob("depth") as u64, p.knob("width") as u64, &mut rng);
                let path = pick(&r, &mut rng, &|m| m.v == V::Dir);
                if i > 0 {
                    let (d, dp) = &roots[0];
                    let d = if dp.is_empty() { d.clone() } else { d.at(dp).unwrap().clone() };
                    overlap(&d, at(&mut r, &path), &sh, common, &mut rng);
                }
                roots.push((r, path));
            }
            for (r, path) in roots {
                let pack = make_pack(p.knob("form") as u64, &mut rng);
                let f = wrap_wz("", r, *rng.pick(&REGIONS[..3]), pack, &mut rng);
                f.write();
                let top = f.open_arc();
                let h = loaded(&top, &f.root, how, &f.path);
                let path = if path.is_empty() || f.root.at(&path).is_some() { path } else { String::new() };
                let node = nav(&top, &path);
                let (m, h) = under(&f.root, h, &path);
                out.push(Tree { node, top: Mutex::new(Some(top)), m, h, path: crate::props::c13::under(&f.root.name, &path) });
            }
        }
        1 => {
            let mut roots: Vec<(M, String)> = vec![];
            for i in 0..=ns {
                let mut r = img(&format!("F{i}.img"), &sh, &mut rng);
                let path = pick(&r, &mut rng, &|m| m.v == V::Prop);
                if i > 0 {
                    let (d, dp) = &roots[0];
                    let d = if dp.is_empty() { d.clone() } else { d.at(dp).unwrap().clone() };
                    overlap(&d, at(&mut r, &path), &sh, common, &mut rng);
                }
                roots.push((r, path));
            }
            for (r, path) in roots {
                let f = wrap_img("", r, *rng.pick(&REGIONS), &mut rng);
                f.write();
                let top = f.open_arc();
                let h = loaded(&top, &f.root, LOAD, &f.path);
                let node = nav(&top, &path);
                let (m, h) = under(&f.root, h, &path);
                out.push(Tree { node, top: Mutex::new(Some(top)), m, h, path: crate::props::c13::under(&f.root.name, &path) });
            }
        }
        2 => {
            let mut dm: Option<M> = None;
            for i in 0..=ns {
                let mut r = img(&format!("F{i}"), &sh, &mut rng);
                if let Some(d) = &dm {
                    overlap(d, &mut r, &sh, common, &mut rng);
                }
                plain(&mut r);
                let top = made(&r, None);
                if i > 0 && p.knob("shared") == 1 {
                    // the same node listed by both
                    let d: &Tree = &out[0];
                    if let Some(k) = d.m.kids.iter().find(|k| r.kid(&k.name).is_none()) {
                        let h = &d.h[&k.name];
                        wr(&top, |g| g.add(h));
                        if rng.chance(1, 2) {
                            wr(h, |g| g.parent = Arc::downgrade(&top));
                        }
                        r.kids.push(k.clone());
                        let mut hs: BTreeMap<String, WzNodeArc> = BTreeMap::new();
                        handles(&top, "", &mut hs);
                        out.push(Tree { node: top.clone(), top: Mutex::new(Some(top)), m: r.clone(), h: hs, path: r.name.clone() });
                        continue;
                    }
                }
                let h = loaded(&top, &r, AS_IS, "made by hand");
                if i == 0 {
                    dm = Some(r.clone());
                }
                out.push(Tree { node: top.clone(), top: Mutex::new(Some(top)), m: r.clone(), h, path: r.name.clone() });
            }
        }
        _ => {
            let mut r = M::new("F0", V::Dir);
            for i in 0..=ns {
                let mut k = model::dir(&format!("dir{i}"), &sh, p.knob("depth") as u64, p.knob("width") as u64, &mut rng);
                if i > 0 {
                    let d = r.kids[0].clone();
                    overlap(&d, &mut k, &sh, common, &mut rng);
                }
                r.kids.push(k);
            }
            let pack = make_pack(p.knob("form") as u64, &mut rng);
            let f = wrap_wz("", r, *rng.pick(&REGIONS[..3]), pack, &mut rng);
            f.write();
            let top = f.open_arc();
            let h = loaded(&top, &f.root, how, &f.path);
            for k in &f.root.kids {
                let (m, h) = under(&f.root, h.clone(), &k.name);
                out.push(Tree { node: h[""].clone(), top: Mutex::new(Some(top.clone())), m, h, path: join("F0", &k.name) });
            }
        }
    }
    let s = out.split_off(1);
    (out.pop().unwrap(), s)
}
fn handles(n: &WzNodeArc, at: &str, h: &mut BTreeMap<String, WzNodeArc>) {
    h.insert(at.to_string(), n.clone());
    for (k, c) in snap(n).kids {
        handles(&c, &join(at, &k), h);
    }
}
/// every possible result: sources in either order
fn results(c: &Ctx, done: &[bool]) -> Vec<(M, BTreeMap<String, WzNodeArc>)> {
    let orders: Vec<Vec<usize>> = match done {
        [a] => vec![if *a { vec![0] } else { vec![] }],
        [true, true] => vec![vec![0, 1], vec![1, 0]],
        [a, b] => vec![if *a {
            vec![0]
        } else if *b {
            vec![1]
        } else {
            vec![]
        }],
        _ => vec![vec![]],
    };
    orders
        .into_iter()
        .map(|o| {
            let (mut m, mut h) = (c.d.m.clone(), c.d.h.clone());
            for i in o {
                merged(&mut m, &c.s[i].m, "", c.deep, &mut h, &c.s[i].h);
            }
            (m, h)
        })
        .collect()
}
fn same(n: &WzNodeArc, want: &(M, BTreeMap<String, WzNodeArc>), how: How) -> Result<(), String> {
    let h = check_tree(n, &want.0, how)?;
    for (p, a) in &want.1 {
        match h.get(p) {
            Some(b) if Arc::ptr_eq(a, b) => {}
            Some(_) => return Err(format!("{p:?} is another node than before the merge")),
            None => return Err(format!("{p:?} is gone")),
        }
    }
    count(C_OKCHECK);
    Ok(())
}
/// the nodes of `s` that were merged into others list nothing any more
fn emptied(c: &Ctx, s: &Tree, m: &M, d: Option<&M>, at: &str) {
    let Some(h) = s.h.get(at) else { return };
    // a node listed by both trees stays as it is
    if c.d.h.values().any(|x| Arc::ptr_eq(x, h)) {
        return;
    }
    let Some(d) = d else { return };
    let k = got(h);
    if !k.is_empty() && (c.deep || m.v != V::Img || at.is_empty()) {
        violate("merge", &format!("after the merge the source's {at:?} still lists {k:?}"));
    }
    for k in &m.kids {
        emptied(c, s, k, d.kid(&k.name), &join(at, &k.name));
    }
}
pub fn run(p: &Plan) {
    let (d, s) = make(p);
    let deep = p.knob("images") == 2 || matches!(p.knob("kind"), 1 | 2);
    let mut c = Ctx { d, s, deep, free_imgs: vec![], done: Mutex::new(vec![false; p.knob("sources") as usize]) };
    // images that exist in one of the trees only
    for i in 0..=c.s.len() {
        let t = c.tree(i);
        for q in t.m.paths_where(|m| m.v == V::Img) {
            if (0..=c.s.len()).all(|j| j == i || c.tree(j).m.at(&q).is_none()) && p.knob("images") == 1 {
                c.free_imgs.push((i, q));
            }
        }
    }
    let c = Arc::new(c);
    let c2 = c.clone();
    threads(p, move |_, o| {
        let c = &c2;
        let i = o.a as usize % c.s.len();
        let s = &c.s[i];
        match o.k.as_str() {
            "merge" => {
                count(C_MERGE);
                wr(&s.node, |g| g.transfer_childs(&c.d.node));
                let k = got(&s.node);
                if !k.is_empty() {
                    violate("merge", &format!("the source still lists {k:?} after the merge"));
                }
                c.done.lock().unwrap()[i] = true;
            }
            // what the two nodes list while merging: nothing is lost, nothing is in both
            "state" => {
                let both = s.m.paths_where(|m| container(&m.v));
                let mut cand: Vec<String> = both
                    .into_iter()
                    .filter(|q| {
                        let (a, b) = (s.m.at(q).unwrap(), c.d.m.at(q));
                        let (ha, hb) = (s.h.get(q), c.d.h.get(q));
                        ha.is_some() && hb.is_some() && !Arc::ptr_eq(ha.unwrap(), hb.unwrap()) && (c.deep || a.v == V::Dir && b.unwrap().v == V::Dir)
                    })
                    .collect();
                cand.push(String::new());
                let q = &cand[o.b as usize % cand.len()];
                let at = |m: &M| if q.is_empty() { Some(m.clone()) } else { m.at(q).cloned() };
                let (sm, dm) = (names(&at(&s.m).unwrap()), names(&at(&c.d.m).unwrap()));
                // the other source may add its own
                let mut all: BTreeSet<String> = sm.union(&dm).cloned().collect();
                for x in &c.s {
                    if let Some(m) = at(&x.m) {
                        all.extend(names(&m));
                    }
                }
                let done = c.done.lock().unwrap()[i];
                let k = got(&s.h[q]);
                // (a node this source shares with the destination may be under the other source's hands)
                if !k.is_empty() && k != sm {
                    violate("merge", &format!("while merging, the source's {q:?} lists {k:?} and not all of {sm:?}"));
                }
                if done && !k.is_empty() {
                    violate("merge", &format!("after the merge the source's {q:?} lists {k:?}"));
                }
                let dk = got(&c.d.h[q]);
                let must: BTreeSet<String> = if k.is_empty() && !sm.is_empty() { sm.union(&dm).cloned().collect() } else { dm };
                if !dk.is_superset(&must) {
                    violate("merge", &format!("{q:?} of the destination lacks {:?} (the source lists {k:?})", must.difference(&dk).collect::<Vec<_>>()));
                }
                if !dk.is_subset(&all) {
                    violate("merge", &format!("{q:?} of the destination lists {:?} which neither tree has", dk.difference(&all).collect::<Vec<_>>()));
                }
                count(C_OKCHECK);
            }
            // a handle obtained before
            "value" | "path" => {
                let t = c.tree(o.b as usize % (c.s.len() + 1));
                let all: Vec<&String> = t.h.keys().collect();
                let q = all[o.c as usize % all.len()];
                let h = &t.h[q];
                let m = if q.is_empty() { &t.m } else { t.m.at(q).unwrap() };
                let sn = snap(h);
                if o.k == "value" && !q.is_empty() {
                    if let Err(e) = check_value(&sn.obj, m) {
                        violate("moved", &format!("{q:?} of {}: {e}", t.path));
                    }
                }
                let (up, _) = q.rsplit_once('/').unwrap_or(("", q));
                if !q.is_empty() {
                    let ok = match &sn.parent {
                        Some(x) => (0..=c.s.len()).any(|j| c.tree(j).h.get(up).is_some_and(|y| Arc::ptr_eq(x, y))),
                        None => false,
                    };
                    if !ok {
                        violate("moved", &format!("the parent of {q:?} of {} is {:?}", t.path, sn.parent.map(|x| snap(&x).name)));
                    }
                }
                count(C_OKCHECK);
            }
            "look" => {
                let t = c.tree(o.b as usize % (c.s.len() + 1));
                let all: Vec<&String> = t.h.keys().filter(|k| !k.is_empty()).collect();
                if all.is_empty() {
                    return;
                }
                let q = all[o.c as usize % all.len()];
                count(C_LOOKUP);
                let r = rd(&c.d.node, |g| g.at_path(q));
                match r {
                    Some(n) => {
                        let sn = snap(&n);
                        let ok = (0..=c.s.len()).any(|j| {
                            let t = c.tree(j);
                            t.h.get(q).is_some_and(|x| Arc::ptr_eq(x, &n)) && check_value(&sn.obj, t.m.at(q).unwrap()).is_ok()
                        });
                        if !ok {
                            violate("moved", &format!("looking {q:?} up in the destination gives a {} that none of the trees has there", kind_name(&sn.obj)));
                        }
                    }
                    None if c.d.h.contains_key(q) => violate("merge", &format!("{q:?} of the destination is not found while merging")),
                    None => {}
                }
                count(C_OKCHECK);
            }
            "walk" => {
                count(C_WALK);
                let seen: Mutex<BTreeMap<usize, u32>> = Default::default();
                walk_node(&c.d.node, false, &|x| {
                    *seen.lock().unwrap().entry(Arc::as_ptr(x) as usize).or_default() += 1;
                });
                let seen = seen.into_inner().unwrap();
                for (q, h) in &c.d.h {
                    let n = seen.get(&(Arc::as_ptr(h) as usize)).copied().unwrap_or(0);
                    if n != 1 {
                        violate("merge", &format!("a walk of the destination comes {n} times to its {q:?}"));
                    }
                }
                count(C_OKCHECK);
            }
            "parse" => {
                if !c.free_imgs.is_empty() {
                    let (j, q) = &c.free_imgs[o.b as usize % c.free_imgs.len()];
                    let t = c.tree(*j);
                    must_match("moved", &format!("image {q:?} of {}", t.path), &t.h[q], t.m.at(q).unwrap(), FULL);
                }
            }
            k => harness_error(k),
        }
    });
    let sources = c.s.len();
    let cc = c.clone();
    let again = p.knob("again") == 1;
    let kind = p.knob("kind");
    on_thread("after the merge", move || {
        let c = &cc;
        let done = c.done.lock().unwrap().clone();
        let check = |when: &str, how: How| {
            let r = results(c, &done);
            let mut bad = vec![];
            for want in &r {
                match same(&c.d.node, want, how) {
                    Ok(()) => return,
                    Err(e) => bad.push(e),
                }
            }
            violate("merge", &format!("{when}: {}", bad[0]));
        };
        check("after the merge", if c.deep { AS_IS } else { LISTING });
        for (i, s) in c.s.iter().enumerate() {
            if done[i] && sources == 1 {
                emptied(c, s, &s.m, Some(&c.d.m), "");
            }
        }
        // paths lead through the new parents
        for (i, s) in c.s.iter().enumerate() {
            for k in &s.m.kids {
                if done[i] && c.d.m.kid(&k.name).is_none() && sources == 1 {
                    let got = rd(&s.h[&k.name], |g| g.get_full_path());
                    if got != join(&c.d.path, &k.name) {
                        violate("moved", &format!("the path of {:?} is {got:?} after the merge into {:?}", k.name, c.d.path));
                    }
                    count(C_OKCHECK);
                }
            }
        }
        if again && kind != 2 {
            // load the sources once more and merge them again: everything is there already
            for (i, s) in c.s.iter().enumerate() {
                if done[i] && matches!(s.m.v, V::Dir | V::Img) {
                    unparse(&s.node);
                    let h = check_tree(&s.node, &s.m, LISTING);
                    match h {
                        Ok(_) => {}
                        Err(e) => violate("merge", &format!("{} loaded again after it was merged: {e}", s.path)),
                    }
                    if !c.deep && s.m.v == V::Dir {
                        count(C_MERGE);
                        wr(&s.node, |g| g.transfer_childs(&c.d.node));
                    }
                }
            }
            check("after loading and merging the sources again", if c.deep { AS_IS } else { LISTING });
        }
        // nothing of the merged tree needs the tops of the sources
        for s in &c.s {
            count(C_DROP);
            s.top.lock().unwrap().take();
        }
        check("after the sources' files were dropped", FULL);
    });
}
