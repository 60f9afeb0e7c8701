//! A client that fails inside a callback or writer does not take the tree down.
use crate::gen::*;
use crate::props::c13::{at, link_in, visits};
use crate::run::*;
use crate::world::*;
use simstd::sim::{self, Rng};
use std::cell::Cell;
use std::io::{Cursor, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
use wz_reader::property::{get_image, WzSound, WzSubProperty};
use wz_reader::util::node_util::get_node_without_parse;
use wz_reader::util::walk_node;
use wz_reader::{WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 2);
    p.set("big", *rng.pick(&[30, 300, 20000]));
    p.set("depth", *rng.pick(&[0, 1, 2]));
    p.set("side", *rng.pick(&[4, 9]));
    p.set("sound", 250);
    p.set("links", rng.below(2) as i64);
    let files = p.knob("files") as u64;
    let nt = *rng.pick(&[1, 2, 2, 3]);
    // callers do not mix upward and downward questions while holding nodes (see C03)
    p.set("up", rng.below(2) as i64);
    for _ in 0..nt {
        let n = if nt == 1 { 4 + rng.below(10) } else { 2 + rng.below(6) };
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(20) {
                        0..=3 => "walk",
                        4..=6 => "filter",
                        7..=9 => "write",
                        10 | 11 => "json",
                        12 | 13 => "parse",
                        14 => "unparse",
                        15 | 16 => "read",
                        17 => "fwalk",
                        18 => "direct",
                        _ => "tree",
                    };
                    op(k, rng.below(files), rng.next() >> 32, rng.below(1 << 20))
                })
                .collect(),
        );
    }
}
struct F {
    w: FileW,
    root: WzNodeArc,
    cont: Vec<String>,
    all: Vec<String>,
}
struct Ctx {
    fs: Vec<F>,
    kept: Mutex<Vec<(usize, String, WzNodeArc)>>,
}
/// fails at the n-th write or seek
struct Bad {
    inner: Cursor<Vec<u8>>,
    left: u64,
    panics: bool,
    chunk: usize,
}
fn other(e: u64) -> std::io::Error {
    std::io::Error::other(format!("client error {e}"))
}
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sim::point(21, 0);
        if self.left == 0 {
            if self.panics {
                count(C_PANIC);
                std::panic::panic_any(Boom(7));
            }
            count(C_WERR);
            return Err(other(7));
        }
        self.left -= 1;
        let n = b.len().min(self.chunk);
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Bad {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(p)
    }
}
fn boom_at(left: &Cell<u64>) {
    if left.get() == 0 {
        count(C_PANIC);
        std::panic::panic_any(Boom(3));
    }
    left.set(left.get() - 1);
}
impl Ctx {
    fn nav(&self, fi: usize, p: &str) -> Option<WzNodeArc> {
        let mut n = self.fs[fi].root.clone();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            n = rd(&n, |g| g.at(s))?;
        }
        Some(n)
    }
    fn load(&self, fi: usize, p: &str) -> Option<WzNodeArc> {
        let mut n = self.fs[fi].root.clone();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            if let Err(e) = parse(&n) {
                violate("after-failure", &format!("file {fi}: loading on the way to {p:?} fails: {e}"));
            }
            n = rd(&n, |g| g.at(s))?;
        }
        Some(n)
    }
}
pub fn run(p: &Plan) {
    let w = World::make(p);
    let up = p.knob("up") == 1;
    let fs = w
        .files
        .iter()
        .map(|f| {
            let root = f.open_arc();
            let mut cont = vec![String::new()];
            if f.kind != Kind::Img {
                cont.extend(f.root.paths_where(|m| matches!(m.v, V::Dir | V::Img)));
            }
            F { w: f.clone(), root, cont, all: f.root.paths_where(|_| true) }
        })
        .collect::<Vec<_>>();
    let c = Arc::new(Ctx { fs, kept: Default::default() });
    let single = p.threads.len() == 1;
    let multi = !single;
    let c2 = c.clone();
    threads(p, move |_, o| {
        let c = &c2;
        let fi = o.a as usize % c.fs.len();
        let f = &c.fs[fi];
        let pick = |v: &[String]| if v.is_empty() { String::new() } else { v[o.b as usize % v.len()].clone() };
        // a client's failing call: the failure comes out of it and nothing stays behind
        let failing = |g: &dyn Fn()| {
            if let Err(Boom(_)) = guard("a failing client", g) {
                count(C_ERR);
            }
            if sim::holding() != 0 {
                violate("lock-kept", &format!("a client failing in {} leaves {} lock(s) held", o.k, sim::holding()));
            }
        };
        match o.k.as_str() {
            "walk" | "fwalk" => {
                let path = pick(&f.cont);
                let Some(n) = c.nav(fi, &path) else { return };
                count(C_WALK);
                let left = Cell::new(o.c % 40);
                let depth = o.c % 5;
                failing(&|| {
                    walk_node(&n, o.k == "fwalk", &|x| match depth {
                        // while holding the node, or not
                        0 => {
                            rd(x, |_| boom_at(&left));
                        }
                        1 if up => {
                            rd(x, |g| {
                                let _ = g.get_full_path();
                                boom_at(&left);
                            });
                        }
                        2 => {
                            let _ = parse(x);
                            boom_at(&left);
                        }
                        _ => boom_at(&left),
                    })
                });
                // and again, with a callback that does not fail
                let force = o.k == "fwalk" || o.c % 3 == 0;
                let seen: Mutex<Vec<WzNodeArc>> = Default::default();
                walk_node(&n, force, &|x| seen.lock().unwrap().push(x.clone()));
                let seen = seen.into_inner().unwrap();
                if !seen.first().is_some_and(|x| Arc::ptr_eq(x, &n)) {
                    violate("after-failure", &format!("file {fi}: a walk after a failed one does not come to the node it starts at"));
                }
                if single && force {
                    let want: u32 = visits(&f.w, &path).values().sum();
                    if want as usize != seen.len() {
                        violate("after-failure", &format!("file {fi}: a forced walk of {path:?} after a failed one makes {} visits and not {want}", seen.len()));
                    }
                    for ip in f.cont.iter().filter(|x| at(&f.w, x).v == V::Img && (**x == path || path.is_empty() || x.starts_with(&format!("{path}/")))) {
                        match c.nav(fi, ip) {
                            Some(n) => {
                                let s = snap(&n);
                                if !s.kids.is_empty() || parsed_flag(&s.obj) != Some(false) {
                                    violate("after-failure", &format!("file {fi}: a forced walk of {path:?} after a failed one leaves image {ip:?} loaded"));
                                }
                            }
                            None => violate("after-failure", &format!("file {fi}: image {ip:?} is gone after a forced walk")),
                        }
                    }
                    count(C_OKCHECK);
                }
            }
            "filter" => {
                let path = pick(&f.all);
                if path.is_empty() || link_in(&f.w, &path) {
                    return;
                }
                let Some(n) = c.load(fi, &path) else { return };
                let left = Cell::new(o.c % 5);
                if up || single {
                    failing(&|| {
                        rd(&n, |g| {
                            let _ = g.filter_parent(|_| {
                                boom_at(&left);
                                false
                            });
                        })
                    });
                }
                c.kept.lock().unwrap().push((fi, path, n));
            }
            "write" => {
                let sounds = f.w.root.paths_where(|m| matches!(m.v, V::Sound(_)));
                if sounds.is_empty() {
                    return;
                }
                let path = pick(&sounds);
                let Some(n) = c.load(fi, &path) else { return };
                let snd: WzSound = match snap(&n).obj {
                    WzObjectType::Property(WzSubProperty::Sound(s)) => *s,
                    x => violate("after-failure", &format!("file {fi}: {path:?} is a {}", kind_name(&x))),
                };
                let V::Sound(want) = &at(&f.w, &path).v else { return };
                let want = sound_bytes(want);
                let chunk = *[1usize << 30, 1000, 37].get(o.b as usize % 3).unwrap();
                let hold = o.c % 2 == 0;
                failing(&|| {
                    let mut b = Bad { inner: Cursor::new(vec![]), left: o.c / 2 % 6, panics: o.c % 3 == 0, chunk };
                    let r = if hold {
                        // the caller keeps the node locked for reading meanwhile
                        rd(&n, |g| match &g.object_type {
                            WzObjectType::Property(WzSubProperty::Sound(s)) => s.write_to(&mut b),
                            _ => Ok(()),
                        })
                    } else {
                        snd.write_to(&mut b)
                    };
                    let got = b.inner.into_inner();
                    if r.is_ok() && got != want || r.is_err() && !want.starts_with(&got) {
                        violate("after-failure", &format!("file {fi}: sound {path:?}: {} of {} bytes written, result {}", got.len(), want.len(), if r.is_ok() { "ok" } else { "error" }));
                    }
                    if r.is_err() {
                        count(C_ERR);
                    }
                });
                // and again, with a sound writer
                let mut b = Cursor::new(vec![]);
                match snd.write_to(&mut b) {
                    Ok(()) if b.get_ref() == &want => count(C_OKCHECK),
                    Ok(()) => violate("after-failure", &format!("file {fi}: sound {path:?} written after a failed writer differs")),
                    Err(e) => violate("after-failure", &format!("file {fi}: sound {path:?} written after a failed writer: {e}")),
                }
            }
            "json" => {
                // printing holds the nodes from above
                let Some(n) = c.nav(fi, &pick(&f.cont)) else { return };
                if up && multi {
                    return;
                }
                failing(&|| {
                    let b = Bad { inner: Cursor::new(vec![]), left: o.c % 200, panics: o.c % 3 != 0, chunk: 1 << 30 };
                    rd(&n, |g| {
                        if let Err(e) = serde_json::to_writer(b, g) {
                            count(C_ERR);
                            drop(e.to_string());
                        }
                    })
                });
            }
            "parse" => {
                let path = pick(&f.cont);
                let Some(n) = c.nav(fi, &path) else { return };
                if let Err(e) = parse(&n) {
                    violate("after-failure", &format!("file {fi}: parsing {path:?} fails: {e}"));
                }
            }
            "unparse" => {
                if let Some(n) = c.nav(fi, &pick(&f.cont)) {
                    unparse(&n);
                }
            }
            "read" => {
                let path = pick(&f.all);
                if path.is_empty() || link_in(&f.w, &path) {
                    return;
                }
                if let Some(n) = c.load(fi, &path) {
                    let m = at(&f.w, &path);
                    if let Err(e) = check_value(&snap(&n).obj, m) {
                        violate("after-failure", &format!("file {fi}: {path:?}: {e}"));
                    }
                    if let V::Canvas(cv) = &m.v {
                        if !m.kids.iter().any(|k| ["_inlink", "_outlink", "source"].contains(&k.name.as_str())) {
                            if let Err(e) = check_canvas(get_image(&n), cv) {
                                violate("after-failure", &format!("file {fi}: {path:?}: {e}"));
                            }
                        }
                    }
                }
            }
            "direct" => {
                let path = pick(&f.all);
                if path.is_empty() || f.w.kind == Kind::Img || link_in(&f.w, &path) {
                    return;
                }
                count(C_LOOKUP);
                let _ = parse(&f.root);
                if let Some(n) = get_node_without_parse(&f.root, &path) {
                    if let Err(e) = check_value(&snap(&n).obj, at(&f.w, &path)) {
                        violate("after-failure", &format!("file {fi}: {path:?} looked up directly: {e}"));
                    }
                }
            }
            "tree" => {
                if single {
                    must_match("after-failure", &format!("file {fi}"), &f.root, &f.w.root, FULL);
                } else {
                    let _ = c.load(fi, &pick(&f.all));
                }
            }
            k => harness_error(k),
        }
    });
    let cc = c.clone();
    let seed = p.seed;
    on_thread("at the end", move || {
        let c = &cc;
        for (fi, path, n) in c.kept.lock().unwrap().iter() {
            let m = at(&c.fs[*fi].w, path);
            if !matches!(m.v, V::Dir | V::Img) {
                if let Err(e) = check_value(&snap(n).obj, m) {
                    violate("after-failure", &format!("file {fi}: a handle to {path:?}: {e}"));
                }
            }
        }
        for f in &c.fs {
            if seed & 1 == 0 {
                unparse(&f.root);
            }
            // (a thread may have unloaded a folder in which others went on loading)
            for path in &f.cont {
                let mut n = Some(f.root.clone());
                for s in path.split('/').filter(|s| !s.is_empty()) {
                    let x = n.take().unwrap();
                    let _ = parse(&x);
                    n = rd(&x, |g| g.at(s));
                    if n.is_none() {
                        violate("after-failure", &format!("{path:?} of {} is gone", f.w.path));
                    }
                }
            }
            must_match("after-failure", &format!("{} at the end", f.w.path), &f.root, &f.w.root, FULL);
            // everything can still be locked for writing and loaded anew
            unparse(&f.root);
            must_match("after-failure", &format!("{} loaded anew", f.w.path), &f.root, &f.w.root, FULL);
        }
    });
}
