//! Concurrent parsing is all-or-nothing and happens once.
use crate::gen::*;
use crate::run::*;
use crate::world::*;
use simstd::sim::{self, Rng};
use std::collections::HashMap;
use std::sync::Arc;
use wz_reader::{WzNodeArc, WzNodeCast};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 2);
    p.set("big", *rng.pick(&[30, 60, 300]));
    p.set("depth", *rng.pick(&[0, 1, 2, 3]));
    p.set("side", 4);
    p.set("hot", rng.below(3) as i64);
    let nt = 2 + rng.below(3);
    for _ in 0..nt {
        let n = 1 + rng.below(7);
        p.threads.push(
            (0..n)
                .map(|_| {
                    let a = rng.next() >> 32;
                    let f = rng.below(p.knob("files") as u64);
                    let k = match rng.below(12) {
                        0..=3 => "parse",
                        4 | 5 => "pp",
                        6 | 7 => "list",
                        8 => "look",
                        9 => "tree",
                        10 => "direct",
                        _ => "read",
                    };
                    op(k, f, a, rng.below(100))
                })
                .collect(),
        );
    }
}

struct F {
    w: FileW,
    root: WzNodeArc,
    /// paths of file, directories, images
    cont: Vec<String>,
    imgs: Vec<String>,
    all: Vec<String>,
}
struct Ctx {
    fs: Vec<F>,
    seen: std::sync::Mutex<HashMap<(u64, String), WzNodeArc>>,
}
fn at<'a>(f: &'a F, p: &str) -> &'a M {
    if p.is_empty() {
        &f.w.root
    } else {
        f.w.root.at(p).unwrap()
    }
}
/// first component of a path inside an image that is a link, if any
fn through_link(f: &F, p: &str) -> bool {
    let mut m = &f.w.root;
    for s in p.split('/') {
        match m.kid(s) {
            Some(k) => m = k,
            None => return true,
        }
        if matches!(m.v, V::Uol(_)) {
            return true;
        }
    }
    false
}
impl Ctx {
    fn saw(&self, fi: u64, p: &str, n: &WzNodeArc) {
        let mut g = self.seen.lock().unwrap();
        let old = g.entry((fi, p.to_string())).or_insert_with(|| n.clone());
        if !Arc::ptr_eq(old, n) {
            drop(g);
            violate("replaced", &format!("file {fi}: {p:?} is another node now than before, although it was never unloaded"));
        }
    }
    /// the node under one guard: parsed means complete
    fn state(&self, fi: u64, p: &str, n: &WzNodeArc, must: bool) {
        let f = &self.fs[fi as usize];
        let m = at(f, p);
        let s = snap(n);
        let flag = parsed_flag(&s.obj);
        if s.name != m.name {
            violate("wrong-tree", &format!("file {fi}: {p:?} is named {:?}", s.name));
        }
        // (directories are listed along with their parent and say so only later)
        if flag == Some(true) || flag.is_none() || (m.v == V::Dir && !s.kids.is_empty()) {
            let mut want: Vec<&str> = m.kids.iter().map(|k| k.name.as_str()).collect();
            want.sort();
            let got: Vec<&str> = s.kids.iter().map(|k| k.0.as_str()).collect();
            if want != got {
                let c = if flag.is_some() { "partial" } else { "wrong-tree" };
                violate(c, &format!("file {fi}: {p:?} ({}) says it is parsed but lists {} children of {}: {got:?} for {want:?}", kind_name(&s.obj), got.len(), want.len()));
            }
            for (k, c) in &s.kids {
                self.saw(fi, &join(p, k), c);
            }
        } else if must {
            violate("partial", &format!("file {fi}: {p:?} is not parsed after its parse succeeded"));
        } else {
            count(C_NOTSEEN);
            if !s.kids.is_empty() {
                violate("partial", &format!("file {fi}: {p:?} ({}) says it is not parsed but lists {} children", kind_name(&s.obj), s.kids.len()));
            }
        }
        count(C_OKCHECK);
    }
    /// as a client goes: one handle after the other
    fn nav(&self, fi: u64, p: &str) -> Option<WzNodeArc> {
        let f = &self.fs[fi as usize];
        let mut n = f.root.clone();
        let mut path = String::new();
        if p.is_empty() {
            return Some(n);
        }
        for s in p.split('/') {
            let (c, flag) = rd(&n, |g| (g.at(s), parsed_flag(&g.object_type)));
            path = join(&path, s);
            match c {
                Some(c) => {
                    self.saw(fi, &path, &c);
                    n = c;
                }
                None if flag == Some(false) => return None,
                None => violate("partial", &format!("file {fi}: {path:?} is missing under a parsed node")),
            }
        }
        count(C_LOOKUP);
        Some(n)
    }
}

pub fn run(p: &Plan) {
    let w = World::make(p);
    let fs = w
        .files
        .iter()
        .map(|f| {
            let root = f.open_arc();
            let mut cont = vec![String::new()];
            if f.kind != Kind::Img {
                cont.extend(f.root.paths_where(|m| matches!(m.v, V::Dir | V::Img)));
            }
            F { w: f.clone(), root, cont, imgs: f.image_paths(), all: f.root.paths_where(|_| true) }
        })
        .collect::<Vec<_>>();
    let c = Arc::new(Ctx { fs, seen: Default::default() });
    let hot = p.knob("hot") as u64;
    let c2 = c.clone();
    threads(p, move |_, o| {
        let c = &c2;
        let fi = o.a % c.fs.len() as u64;
        let f = &c.fs[fi as usize];
        // a few nodes draw most of the traffic
        let pick = |v: &[String]| -> String {
            let n = if o.c < 30 * hot { v.len().min(2) } else { v.len() } as u64;
            if n == 0 {
                String::new()
            } else {
                v[(o.b % n) as usize].clone()
            }
        };
        match o.k.as_str() {
            "parse" => {
                let path = pick(&f.cont);
                let Some(n) = c.nav(fi, &path) else { return };
                if let Err(e) = parse(&n) {
                    violate("parse-fails", &format!("file {fi}: parsing {path:?} of an intact file fails: {e}"));
                }
                c.state(fi, &path, &n, true);
            }
            "list" => {
                let path = pick(&f.cont);
                if let Some(n) = c.nav(fi, &path) {
                    c.state(fi, &path, &n, false);
                }
            }
            "pp" => {
                let path = pick(&f.all);
                if path.is_empty() {
                    return;
                }
                // the root itself is not parsed by the lookup
                if let Err(e) = parse(&f.root) {
                    violate("parse-fails", &format!("file {fi}: {e}"));
                }
                let r = rd(&f.root, |g| g.at_path_parsed(&path));
                count(C_LOOKUP);
                if through_link(f, &path) {
                    return;
                }
                match r {
                    Ok(n) => {
                        c.saw(fi, &path, &n);
                        if !matches!(at(f, &path).v, V::Dir | V::Img) {
                            if let Err(e) = check_value(&snap(&n).obj, at(f, &path)) {
                                violate("wrong-tree", &format!("file {fi}: at_path_parsed({path:?}): {e}"));
                            }
                        }
                    }
                    Err(e) => violate("partial", &format!("file {fi}: at_path_parsed({path:?}) fails: {e}")),
                }
            }
            "look" => {
                let path = pick(&f.all);
                if path.is_empty() || through_link(f, &path) {
                    return;
                }
                count(C_LOOKUP);
                match rd(&f.root, |g| g.at_path(&path)) {
                    Some(n) => c.saw(fi, &path, &n),
                    None => count(C_NOTSEEN),
                }
            }
            "read" => {
                let path = pick(&f.all);
                if path.is_empty() || through_link(f, &path) {
                    return;
                }
                if let Some(n) = c.nav(fi, &path) {
                    let m = at(f, &path);
                    if matches!(m.v, V::Dir | V::Img) {
                        c.state(fi, &path, &n, false);
                    } else {
                        let s = snap(&n);
                        if let Err(e) = check_value(&s.obj, m) {
                            violate("wrong-tree", &format!("file {fi}: {path:?}: {e}"));
                        }
                        c.state(fi, &path, &n, false);
                    }
                }
            }
            "direct" => {
                // a lookup that parses nothing, next to the parsing threads
                let path = pick(&f.imgs);
                let Some(n) = c.nav(fi, &path) else { return };
                let m = at(f, &path);
                let Some(k) = m.kids.first() else { return };
                if matches!(k.v, V::Uol(_) | V::Text(_) | V::Lua(_)) {
                    return;
                }
                let img = rd(&n, |g| g.try_as_image().cloned());
                if let Some(i) = img {
                    match i.at_path(&k.name) {
                        Ok(n) => {
                            if let Err(e) = check_value(&snap(&n).obj, k) {
                                violate("wrong-tree", &format!("file {fi}: direct {path:?}/{}: {e}", k.name));
                            }
                        }
                        Err(e) => violate("partial", &format!("file {fi}: direct lookup of {:?} in {path:?}: {e}", k.name)),
                    }
                }
            }
            "tree" => {
                let path = pick(&f.cont);
                if let Some(n) = c.nav(fi, &path) {
                    must_match("wrong-tree", &format!("file {fi}: {path:?}"), &n, at(f, &path), FULL);
                }
            }
            _ => {}
        }
        sim::point(21, 0);
    });
    // quiet again: the tree is what a single-threaded load gives, and no handle went stale
    for (fi, f) in c.fs.iter().enumerate() {
        let h = must_match("final-tree", &f.w.path, &f.root, &f.w.root, FULL);
        let g = c.seen.lock().unwrap();
        for ((i, path), n) in g.iter() {
            if *i == fi as u64 {
                if let Some(now) = h.get(path) {
                    if !Arc::ptr_eq(now, n) {
                        violate("replaced", &format!("file {fi}: the handle to {path:?} is no longer part of the tree"));
                    }
                }
            }
        }
    }
}
