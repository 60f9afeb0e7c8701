//! No combination of documented operations leaves a thread waiting forever.
use crate::gen::*;
use crate::linked::*;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::sync::{Arc, Mutex};
use wz_reader::property::get_image;
use wz_reader::util::node_util::{get_node_without_parse, parse_node, resolve_childs_parent, resolve_inlink, resolve_outlink, resolve_uol};
use wz_reader::util::walk_node;
use wz_reader::{WzNodeArc, WzNodeCast};

const ANY: &[&str] = &[
    "parse", "parse", "pnode", "unparse", "unparse", "fwalk", "walk", "inl", "inl", "outl", "outl", "outn", "uol", "img", "img", "img", "direct", "direct", "kidpar", "list", "deep", "deep",
];
const UP: &[&str] = &["full", "full", "wfull", "wffull", "froot", "fimg", "filter", "filter", "pimg", "base", "uprel"];
const DOWN: &[&str] = &["at", "at", "pp", "pp", "json", "sjson", "wat"];

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    knobs(p, rng);
    world_knobs(p, rng, 1);
    p.set("files", rng.below(3) as i64 / 2);
    p.set("based", 1);
    // what callers do while they hold a node: 0 ask for its ancestors, 1 look below it, 2 both
    p.set("mode", *rng.pick(&[0, 0, 0, 0, 1, 1, 1, 1, 1, 2]));
    p.set("pre", rng.below(3) as i64);
    // most operations of a run may be about the nodes on the way to one canvas
    p.set("hot", *rng.pick(&[0, 30, 60, 85, 95]));
    p.set("focus", rng.below(1000) as i64);
    let nt = *rng.pick(&[2, 3, 3, 4, 5]);
    for _ in 0..nt {
        let n = 1 + rng.below(6);
        p.threads.push(
            (0..n)
                .map(|_| {
                    let own: Vec<&str> = match p.knob("mode") {
                        0 => UP.to_vec(),
                        1 => DOWN.to_vec(),
                        _ => UP.iter().chain(DOWN).copied().collect(),
                    };
                    let k = if rng.chance(1, 2) { *rng.pick(&own) } else { *rng.pick(ANY) };
                    op(k, rng.next() >> 32, rng.next() >> 32, rng.below(100))
                })
                .collect(),
        );
    }
}
pub fn mixed(p: &Plan) -> bool {
    let has = |v: &[&str]| p.threads.iter().flatten().any(|o| v.contains(&o.k.as_str()));
    has(UP) && has(DOWN)
}
struct F {
    root: WzNodeArc,
    cont: Vec<String>,
    all: Vec<String>,
}
fn down(root: &WzNodeArc, path: &str, skip: u64) -> (WzNodeArc, String) {
    let mut n = root.clone();
    let mut rest = path;
    for _ in 0..skip % 4 {
        let Some((a, b)) = rest.split_once('/') else { break };
        let Some(k) = rd(&n, |g| g.at(a)) else { break };
        n = k;
        rest = b;
    }
    (n, rest.to_string())
}
pub fn run(p: &Plan) {
    let l = Linked::make(p);
    let mut fs = vec![];
    let mut files = vec![l.f.clone()];
    if p.knob("files") > 0 {
        files.extend(World::make(p).files);
    }
    for f in &files {
        let mut cont = vec![String::new()];
        cont.extend(f.root.paths_where(|m| matches!(m.v, V::Dir | V::Img)));
        fs.push(F { root: f.open_arc(), cont, all: f.root.paths_where(|_| true) });
    }
    // the nodes as they were at the start are kept by the clients, too
    let kept: Vec<WzNodeArc> = {
        let out: Arc<Mutex<Vec<WzNodeArc>>> = Default::default();
        let o2 = out.clone();
        let roots: Vec<WzNodeArc> = fs.iter().map(|f| f.root.clone()).collect();
        let pre = p.knob("pre");
        on_thread("load", move || {
            for r in roots {
                if let Err(e) = parse_node(&r) {
                    violate("open", &format!("{e}"));
                }
                let mut todo = vec![r];
                let mut i = 0;
                while let Some(n) = todo.pop() {
                    let s = snap(&n);
                    i += 1;
                    let image = rd(&n, |g| g.try_as_image().is_some());
                    if s.kids.is_empty() && (!image || pre == 2 || pre == 1 && i % 2 == 0) {
                        let _ = parse(&n);
                    }
                    let s = snap(&n);
                    if i < 4000 {
                        todo.extend(s.kids.into_iter().map(|k| k.1));
                    }
                    o2.lock().unwrap().push(n);
                }
            }
        });
        let v = out.lock().unwrap().clone();
        v
    };
    let c = Arc::new((fs, l, kept));
    let c_ = c.clone();
    let hot = p.knob("hot") as u64;
    let focus = {
        let v = if c.1.links.is_empty() { &c.1.canvases } else { &c.1.links };
        let mut x = v[p.knob("focus") as usize % v.len()].clone();
        let mut o = vec![];
        if !c.1.links.is_empty() {
            x = x.rsplit_once('/').unwrap().0.to_string();
        }
        while let Some((a, _)) = x.clone().rsplit_once('/') {
            o.push(x);
            x = a.to_string();
        }
        o.push(x);
        o
    };
    threads(p, move |_, o| {
        let c = &c_;
        let fi = if o.a % 8 == 7 { c.0.len() - 1 } else { 0 };
        let f = &c.0[fi];
        let l = &c.1;
        let pick = |v: &[String]| -> String {
            if o.c < hot {
                let w: Vec<&String> = focus.iter().filter(|x| v.contains(x)).collect();
                if !w.is_empty() {
                    return w[(o.b % w.len() as u64) as usize].clone();
                }
            }
            if v.is_empty() {
                String::new()
            } else {
                v[(o.b % v.len() as u64) as usize].clone()
            }
        };
        let nav = |p: &str| -> WzNodeArc {
            let mut n = f.root.clone();
            for s in p.split('/').filter(|s| !s.is_empty()) {
                match rd(&n, |g| g.at(s)) {
                    Some(k) => n = k,
                    None => break,
                }
            }
            n
        };
        // sometimes a node somebody kept from before
        let some = |v: &[String]| -> WzNodeArc {
            if o.a % 5 == 4 {
                c.2[(o.b % c.2.len() as u64) as usize].clone()
            } else {
                nav(&pick(v))
            }
        };
        let canvas = || -> WzNodeArc {
            let v: Vec<String> = l.links.iter().map(|x| x.rsplit_once('/').unwrap().0.to_string()).collect();
            let x = if o.c < hot { focus[0].clone() } else if o.a % 3 == 0 || v.is_empty() { pick(&l.canvases) } else { pick(&v) };
            let ip = image_of(&l.f.root, &x).unwrap_or_default();
            if fi == 0 && o.a % 4 != 3 {
                let _ = parse(&nav(&ip));
            }
            nav(&x)
        };
        match o.k.as_str() {
            "parse" => drop(parse(&some(&f.cont))),
            "pnode" => drop(parse_node(&some(&f.cont))),
            "unparse" => unparse(&some(&f.cont)),
            "walk" | "fwalk" => walk_node(&some(&f.cont), o.k == "fwalk", &|n| {
                rd(n, |g| g.name.len());
            }),
            "wfull" | "wffull" => walk_node(&some(&f.cont), o.k == "wffull", &|n| {
                rd(n, |g| g.get_full_path().len());
            }),
            "wat" => walk_node(&some(&f.cont), o.a % 2 == 0, &|n| {
                rd(n, |g| {
                    let k = g.children.keys().next().cloned();
                    k.and_then(|k| g.at_path(&format!("{k}/x"))).is_some()
                });
            }),
            "inl" => {
                let n = canvas();
                if let Some(V::Str(s)) = l.links.get((o.b % l.links.len().max(1) as u64) as usize).map(|x| &l.f.root.at(x).unwrap().v) {
                    resolve_inlink(s, &n);
                }
            }
            "outl" | "outn" => {
                let n = canvas();
                if let Some(V::Str(s)) = l.links.get((o.b % l.links.len().max(1) as u64) as usize).map(|x| &l.f.root.at(x).unwrap().v) {
                    resolve_outlink(s, &n, o.k == "outl");
                }
            }
            "uol" => {
                let v = if o.a % 2 == 0 { l.xuols.iter().map(|x| x.0.clone()).collect() } else { l.uols.clone() };
                resolve_uol(&nav(&pick(&v)), None);
            }
            "img" => drop(get_image(&canvas())),
            "direct" => drop(get_node_without_parse(&f.root, &pick(&f.all))),
            "kidpar" => resolve_childs_parent(&some(&f.cont)),
            "list" => {
                let _ = snap(&some(&f.cont));
            }
            "deep" => {
                // load everything on the way, one node at a time
                let mut n = f.root.clone();
                for s in pick(&f.all).split('/') {
                    let _ = parse(&n);
                    match rd(&n, |g| g.at(s)) {
                        Some(k) => n = k,
                        None => break,
                    }
                }
            }
            // callers that hold the node they ask about
            "full" => drop(rd(&some(&f.all), |g| g.get_full_path())),
            "froot" => drop(rd(&some(&f.all), |g| g.get_path_from_root())),
            "fimg" => drop(rd(&some(&f.all), |g| g.get_path_from_image())),
            "filter" => drop(rd(&some(&f.all), |g| g.filter_parent(|n| n.name.len() == o.b as usize % 8))),
            "pimg" => drop(rd(&some(&f.all), |g| g.get_parent_wz_image())),
            "base" => drop(rd(&some(&f.all), |g| g.get_base_wz_file())),
            "uprel" => drop(rd(&some(&f.all), |g| g.at_relative(".."))),
            "at" => {
                let x = pick(&f.all);
                // from the root or from a node on the way
                let (n, x) = down(&f.root, &x, o.a);
                drop(rd(&n, |g| g.at_path(&x)))
            }
            "pp" => {
                let x = pick(&f.all);
                let (n, x) = down(&f.root, &x, o.a);
                drop(rd(&n, |g| g.at_path_parsed(&x)))
            }
            "json" => drop(rd(&some(&f.cont), |g| g.to_json())),
            "sjson" => drop(rd(&some(&f.cont), |g| g.to_simple_json())),
            _ => {}
        }
        count(C_OKCHECK);
    });
    // and everybody can still use the trees
    for (f, w) in c.0.iter().zip(&files) {
        unparse(&f.root);
        must_match("final-tree", &w.path, &f.root, &w.root, LOAD);
    }
}
