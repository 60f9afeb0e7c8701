//! Unloading and reloading, in any order, always gives back the same tree.
use crate::gen::*;
use crate::model;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use wz_reader::util::walk_node;
use wz_reader::{WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 2);
    p.set("big", *rng.pick(&[30, 60, 300]));
    p.set("depth", *rng.pick(&[0, 1, 2, 3]));
    p.set("side", 4);
    let nt = *rng.pick(&[1, 1, 2, 2, 3]);
    p.set("hot", rng.below(3) as i64);
    // asking for a node's path while holding it and looking up while holding the root do not mix (see C03)
    p.set("paths", rng.below(2) as i64);
    // 1: nobody unloads the root; 2: one thread walks, the others only read
    let mode = if nt == 1 { 0 } else { rng.below(3) };
    p.set("mode", mode as i64);
    if mode != 0 {
        p.set("paths", mode as i64 - 1);
    }
    for t in 0..nt {
        let n = if nt == 1 { 3 + rng.below(14) } else { 2 + rng.below(7) };
        p.threads.push(
            (0..n)
                .map(|_| {
                    let a = rng.next() >> 32;
                    let f = rng.below(p.knob("files") as u64);
                    let r = rng.below(20);
                    let k = match if mode == 2 {
                        // the first thread walks
                        [11, 20][(t > 0) as usize] + (t > 0) as u64 * (r % 4)
                    } else if mode == 1 && r < 3 {
                        13
                    } else if nt > 1 && p.knob("paths") == 1 && (13..=15).contains(&r) { r - 10 } else { r } {
                        0..=4 => "parse",
                        5..=9 => "unparse",
                        10 | 11 => "fwalk",
                        12 => "walk",
                        13 | 14 => "pp",
                        15 => "look",
                        16 | 17 => "tree",
                        18 => "keep",
                        19 | 20 => "read",
                        21 => "look",
                        _ => "hold",
                    };
                    op(k, f, a, rng.below(100))
                })
                .collect(),
        );
    }
}
pub struct F {
    pub w: FileW,
    pub root: WzNodeArc,
    pub cont: Vec<String>,
    pub all: Vec<String>,
}
pub fn at<'a>(f: &'a FileW, p: &str) -> &'a M {
    if p.is_empty() {
        &f.root
    } else {
        f.root.at(p).unwrap()
    }
}
pub fn under(a: &str, b: &str) -> String {
    if b.is_empty() {
        a.into()
    } else {
        join(a, b)
    }
}
/// full paths a walk over the loaded tree sees, links leading where they should
pub fn visits(f: &FileW, at_: &str) -> BTreeMap<String, u32> {
    fn go(m: &M, path: &str, img: Option<(&M, String)>, out: &mut BTreeMap<String, u32>) {
        *out.entry(path.to_string()).or_default() += 1;
        for k in &m.kids {
            let p = join(path, &k.name);
            let here = if m.v == V::Img { Some((m, path.to_string())) } else { img.clone() };
            if let (V::Uol(_), Some((im, ip))) = (&k.v, &here) {
                let inner = &p[ip.len() + 1..];
                if let Some(t) = model::uol_target(im, inner) {
                    go(im.at(&t).unwrap(), &join(ip, &t), here.clone(), out);
                    continue;
                }
            }
            go(k, &p, here, out);
        }
    }
    let mut o = BTreeMap::new();
    let start = under(&f.root.name, at_);
    // a walk may start inside an image
    let mut img = None;
    let mut m = &f.root;
    let mut path = f.root.name.clone();
    if m.v == V::Img {
        img = Some((m, path.clone()));
    }
    for s in at_.split('/').filter(|s| !s.is_empty()) {
        m = m.kid(s).unwrap();
        path = join(&path, s);
        if m.v == V::Img {
            img = Some((m, path.clone()));
        }
    }
    go(m, &start, img, &mut o);
    o
}
struct Ctx {
    fs: Vec<F>,
    single: bool,
    mode: i64,
    paths: bool,
    /// taken before the threads start
    before: Vec<(u64, WzNodeArc)>,
    kept: Mutex<Vec<(u64, String, WzNodeArc)>>,
}
impl Ctx {
    fn nav(&self, fi: u64, p: &str) -> Option<WzNodeArc> {
        let mut n = self.fs[fi as usize].root.clone();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            n = rd(&n, |g| g.at(s))?;
        }
        Some(n)
    }
}
pub fn link_in(f: &FileW, p: &str) -> bool {
    let mut m = &f.root;
    for s in p.split('/').filter(|s| !s.is_empty()) {
        let Some(k) = m.kid(s) else { return true };
        m = k;
        if matches!(m.v, V::Uol(_)) {
            return true;
        }
    }
    false
}
fn unloaded(fi: u64, path: &str, n: &WzNodeArc) {
    let s = snap(n);
    if !s.kids.is_empty() {
        violate("unparse", &format!("file {fi}: {path:?} ({}) still has {} children after it was unloaded", kind_name(&s.obj), s.kids.len()));
    }
    if parsed_flag(&s.obj) != Some(false) {
        violate("unparse", &format!("file {fi}: {path:?} ({}) still says it is parsed after it was unloaded", kind_name(&s.obj)));
    }
}
pub fn run(p: &Plan) {
    let w = World::make(p);
    let fs = w
        .files
        .iter()
        .map(|f| {
            let root = f.open_arc();
            let mut cont = vec![String::new()];
            if f.kind != Kind::Img {
                cont.extend(f.root.paths_where(|m| matches!(m.v, V::Dir | V::Img)));
            }
            F { w: f.clone(), root, cont, all: f.root.paths_where(|_| true) }
        })
        .collect::<Vec<_>>();
    let mut before = vec![];
    if p.knob("mode") == 2 {
        for (fi, f) in fs.iter().enumerate() {
            for path in &f.cont {
                let mut n = f.root.clone();
                for s in path.split('/').filter(|s| !s.is_empty()) {
                    let _ = parse(&n);
                    let Some(x) = rd(&n, |g| g.at(s)) else { violate("reload", &format!("file {fi}: {path:?} is missing")) };
                    n = x;
                }
                before.push((fi as u64, n));
            }
        }
    }
    let c = Arc::new(Ctx { fs, before, mode: p.knob("mode"), single: p.threads.len() == 1, paths: p.threads.len() == 1 || p.knob("paths") == 1, kept: Default::default() });
    let hot = p.knob("hot") as u64;
    let c2 = c.clone();
    threads(p, move |_, o| {
        let c = &c2;
        let fi = o.a % c.fs.len() as u64;
        let f = &c.fs[fi as usize];
        let pick = |v: &[String]| -> String {
            let n = if o.c < 30 * hot { v.len().min(2) } else { v.len() } as u64;
            if n == 0 {
                String::new()
            } else {
                v[(o.b % n) as usize].clone()
            }
        };
        match o.k.as_str() {
            "parse" => {
                let path = pick(&f.cont);
                let Some(n) = c.nav(fi, &path) else { return };
                if let Err(e) = parse(&n) {
                    violate("reload", &format!("file {fi}: parsing {path:?} fails: {e}"));
                }
                if c.single {
                    let m = at(&f.w, &path);
                    if m.v == V::Dir {
                        let s = snap(&n);
                        let mut want: Vec<&str> = m.kids.iter().map(|k| k.name.as_str()).collect();
                        want.sort();
                        let got: Vec<&str> = s.kids.iter().map(|k| k.0.as_str()).collect();
                        if want != got {
                            violate("reload", &format!("file {fi}: {path:?} parsed again lists {got:?} and not {want:?}"));
                        }
                        count(C_OKCHECK);
                    } else {
                        must_match("reload", &format!("file {fi}: {path:?}"), &n, m, LOAD);
                    }
                }
            }
            "hold" => {
                // a reader that takes its time
                let all: Vec<_> = c.before.iter().filter(|x| x.0 == fi).collect();
                let (_, n) = all[(o.b % all.len() as u64) as usize];
                rd(n, |g| {
                    let mut left = o.c % 20;
                    for k in g.children.values() {
                        if left == 0 {
                            break;
                        }
                        left -= 1;
                        rd(k, |g| {
                            if let Some(s) = parsed_flag(&g.object_type) {
                                std::hint::black_box(s);
                            }
                        });
                    }
                    for _ in 0..left {
                        simstd::sim::point(22, 0);
                    }
                });
            }
            "unparse" => {
                let mut path = pick(&f.cont);
                if c.mode == 1 && path.is_empty() {
                    match f.cont.get(1) {
                        Some(x) => path = x.clone(),
                        None => return,
                    }
                }
                let Some(n) = c.nav(fi, &path) else { return };
                let never = matches!(rd(&n, |g| g.object_type.clone()), WzObjectType::MsImage(_));
                unparse(&n);
                if c.single && !never {
                    unloaded(fi, &path, &n);
                    count(C_OKCHECK);
                }
            }
            "tree" => {
                let path = pick(&f.cont);
                let Some(n) = c.nav(fi, &path) else { return };
                if c.single {
                    must_match("reload", &format!("file {fi}: {path:?}"), &n, at(&f.w, &path), FULL);
                } else {
                    let _ = parse(&n);
                }
            }
            "pp" | "look" => {
                let path = pick(&f.all);
                if path.is_empty() || link_in(&f.w, &path) {
                    return;
                }
                count(C_LOOKUP);
                let got = if o.k == "pp" {
                    if let Err(e) = parse(&f.root) {
                        violate("reload", &format!("file {fi}: {e}"));
                    }
                    let r = rd(&f.root, |g| g.at_path_parsed(&path));
                    match r {
                        Ok(n) => Some(n),
                        // what is unloaded on the way is loaded again, and only the root is not
                        Err(e) if c.single || c.mode == 1 && f.w.kind != Kind::Img && f.w.root.v == V::Dir => violate("reload", &format!("file {fi}: at_path_parsed({path:?}) after reloading: {e}")),
                        Err(_) => None,
                    }
                } else {
                    rd(&f.root, |g| g.at_path(&path))
                };
                if let Some(n) = got {
                    if let Err(e) = check_value(&snap(&n).obj, at(&f.w, &path)) {
                        violate("reload", &format!("file {fi}: {path:?}: {e}"));
                    }
                }
            }
            "read" | "keep" => {
                let path = pick(&f.all);
                if path.is_empty() || link_in(&f.w, &path) {
                    return;
                }
                if let Some(n) = c.nav(fi, &path) {
                    if let Err(e) = check_value(&snap(&n).obj, at(&f.w, &path)) {
                        violate("reload", &format!("file {fi}: {path:?}: {e}"));
                    }
                    if o.k == "keep" {
                        c.kept.lock().unwrap().push((fi, path, n));
                    }
                }
            }
            "walk" | "fwalk" => {
                let path = pick(&f.cont);
                let Some(n) = c.nav(fi, &path) else { return };
                let force = o.k == "fwalk";
                count(C_WALK);
                let seen: Mutex<Vec<String>> = Default::default();
                walk_node(&n, force, &|x| {
                    let p = rd(x, |g| if c.paths { g.get_full_path() } else { g.name.to_string() });
                    seen.lock().unwrap().push(p);
                });
                let seen = seen.into_inner().unwrap();
                // (those who only read make no difference)
                if !c.single && c.mode != 2 {
                    return;
                }
                let want = visits(&f.w, &path);
                let mut got: BTreeMap<String, u32> = BTreeMap::new();
                for (i, s) in seen.iter().enumerate() {
                    // the parent comes first (the way a link leads is known from the model)
                    let par = s.rsplit_once('/').map(|x| x.0);
                    let start = under(&f.w.root.name, &path);
                    if *s != start && par.is_some_and(|p| p.starts_with(&start) && !seen[..i].iter().any(|x| x == p)) && want.values().all(|v| *v == 1) {
                        violate("walk", &format!("file {fi}: a walk of {path:?} comes to {s:?} before its parent"));
                    }
                    *got.entry(s.clone()).or_default() += 1;
                }
                if force && got != want {
                    let miss: Vec<_> = want.iter().filter(|(k, v)| got.get(*k) != Some(v)).take(4).collect();
                    let extra: Vec<_> = got.iter().filter(|(k, v)| want.get(*k) != Some(v)).take(4).collect();
                    violate("walk", &format!("file {fi}: a forced walk of {path:?} makes {} visits of {}: expected {miss:?}, made {extra:?}", seen.len(), want.values().sum::<u32>()));
                }
                if !force {
                    for (k, v) in &got {
                        if want.get(k).is_none_or(|w| w < v) {
                            violate("walk", &format!("file {fi}: a walk of {path:?} visits {k:?} {v} times"));
                        }
                    }
                }
                if force {
                    // images are unloaded again
                    for ip in f.cont.iter().filter(|x| at(&f.w, x).v == V::Img && (x.as_str() == path || path.is_empty() || x.starts_with(&format!("{path}/")))) {
                        match c.nav(fi, ip) {
                            Some(n) => unloaded(fi, ip, &n),
                            None => violate("walk", &format!("file {fi}: image {ip:?} is gone after a forced walk")),
                        }
                    }
                }
                count(C_OKCHECK);
            }
            _ => {}
        }
    });
    for (fi, f) in c.fs.iter().enumerate() {
        // once as it is, once after unloading everything from the top
        if p.seed & 1 == 0 {
            unparse(&f.root);
            unloaded(fi as u64, "", &f.root);
        }
        for path in &f.cont {
            if let Some(n) = c.nav(fi as u64, path) {
                if let Err(e) = parse(&n) {
                    violate("final-tree", &format!("file {fi}: {path:?}: {e}"));
                }
            }
        }
        must_match("final-tree", &f.w.path, &f.root, &f.w.root, FULL);
    }
    for (fi, path, n) in c.kept.lock().unwrap().iter() {
        let m = at(&c.fs[*fi as usize].w, path);
        if matches!(m.v, V::Dir | V::Img) {
            continue;
        }
        if let Err(e) = check_value(&snap(n).obj, m) {
            violate("kept-handle", &format!("file {fi}: {path:?}: {e}"));
        }
    }
}
