//! Handles keep their data alive, and dropping the last one releases the file.
use crate::damage;
use crate::disk::{self, Hit};
use crate::gen::*;
use crate::props::c13::{at, link_in};
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::collections::HashSet;
use std::sync::{Arc, Mutex, Weak};
use wz_reader::property::{get_image, WzValue};
use wz_reader::util::node_util::resolve_uol;
use wz_reader::util::walk_node;
use wz_reader::{WzNode, WzNodeArc, WzObjectType, WzReader};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 2);
    p.set("big", *rng.pick(&[30, 60, 300]));
    p.set("depth", *rng.pick(&[0, 1, 2]));
    p.set("side", *rng.pick(&[4, 9]));
    p.set("long", 0);
    p.set("links", rng.below(2) as i64);
    p.faults.push(damage::draw(rng));
    p.faults.push(damage::draw(rng));
    let files = p.knob("files") as u64;
    let nt = *rng.pick(&[1, 1, 2, 2, 3]);
    for _ in 0..nt {
        let n = if nt == 1 { 6 + rng.below(20) } else { 3 + rng.below(8) };
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(33) {
                        0..=6 => "take",
                        7..=14 => "use",
                        15 | 16 => "droproot",
                        17..=19 => "drop",
                        20 | 21 => "unparse",
                        22 => "replace",
                        23 | 24 => "open",
                        25 => "fail",
                        26 => "bad",
                        27 => "walk",
                        28 => "knot",
                        29 => "folder",
                        30 => "merge",
                        _ => "tree",
                    };
                    op(k, rng.below(files), rng.next() >> 32, rng.next() >> 32)
                })
                .collect(),
        );
    }
}
/// one opening of a file
struct Inst {
    fi: usize,
    nodes: Mutex<Vec<(String, Weak<RwLock2>)>>,
    readers: Mutex<Vec<Weak<WzReader>>>,
    /// paths at which something foreign was put
    replaced: Mutex<Vec<String>>,
}
type RwLock2 = <WzNodeArc as std::ops::Deref>::Target;
impl Inst {
    fn note(&self, path: &str, n: &WzNodeArc) {
        self.nodes.lock().unwrap().push((path.to_string(), Arc::downgrade(n)));
        let r = match &snap(n).obj {
            WzObjectType::File(f) => Arc::downgrade(&f.reader),
            WzObjectType::Image(i) => Arc::downgrade(&i.reader),
            WzObjectType::MsFile(f) => Arc::downgrade(&f.reader),
            _ => return,
        };
        self.readers.lock().unwrap().push(r);
    }
    fn note_all(&self, top: &WzNodeArc) {
        let mut seen = HashSet::new();
        let mut keep = vec![];
        let mut todo = vec![(String::new(), top.clone())];
        while let Some((p, n)) = todo.pop() {
            if seen.insert(Arc::as_ptr(&n) as usize) {
                keep.push(n.clone());
                self.note(&p, &n);
                todo.extend(snap(&n).kids.into_iter().map(|k| (join(&p, &k.0), k.1)));
            }
        }
    }
    /// nothing of it may be left
    fn released(&self, what: &str) {
        for (p, w) in self.nodes.lock().unwrap().iter() {
            if w.strong_count() != 0 {
                let kind = w.upgrade().map(|n| kind_name(&snap(&n).obj)).unwrap_or("node");
                violate("leak", &format!("{what}: {p:?} ({kind}) is still alive ({} owners) after every handle was dropped", w.strong_count()));
            }
        }
        for r in self.readers.lock().unwrap().iter() {
            if r.strong_count() != 0 {
                violate("leak", &format!("{what}: its data ({} owners) is still held after every handle was dropped", r.strong_count()));
            }
        }
        count(C_OKCHECK);
    }
}
#[derive(Clone)]
struct H {
    inst: Arc<Inst>,
    path: String,
    n: WzNodeArc,
}
struct F {
    w: FileW,
    all: Vec<String>,
    root: Mutex<Option<H>>,
}
struct Ctx {
    fs: Vec<F>,
    pool: Mutex<Vec<H>>,
    insts: Mutex<Vec<Arc<Inst>>>,
    bad: Vec<FileW>,
    /// nobody takes children away while a container is looked through
    strict: bool,
    /// somebody may put something else in a place while it is looked at
    replaces: bool,
    single: bool,
}
fn has_uol(m: &M) -> bool {
    matches!(m.v, V::Uol(_)) || m.kids.iter().any(has_uol)
}
impl Ctx {
    fn open(&self, i: usize) {
        let f = &self.fs[i];
        let n = f.w.open_arc();
        let inst = Arc::new(Inst { fi: i, nodes: Default::default(), readers: Default::default(), replaced: Default::default() });
        inst.note("", &n);
        self.insts.lock().unwrap().push(inst.clone());
        let old = f.root.lock().unwrap().replace(H { inst, path: String::new(), n });
        drop(old);
    }
    /// down from a handle, loading what is not loaded
    fn down(&self, h: &H, path: &str) -> Option<WzNodeArc> {
        let mut n = h.n.clone();
        let rest = if h.path == path { "" } else if h.path.is_empty() { path } else { path.strip_prefix(&h.path)?.strip_prefix('/')? };
        for s in rest.split('/').filter(|s| !s.is_empty()) {
            // somebody may unload it in between: what is not there now is not taken
            if let Err(e) = parse(&n) {
                violate("handle", &format!("loading on the way to {path:?} of {} fails: {e}", self.fs[h.inst.fi].w.path));
            }
            n = rd(&n, |g| g.at(s))?;
        }
        Some(n)
    }
    fn usable(&self, h: &H, r: u64) {
        let f = &self.fs[h.inst.fi].w;
        let m = at(f, &h.path);
        let what = || format!("a handle to {:?} of {}", h.path, f.path);
        let s = snap(&h.n);
        if let Err(e) = check_value(&s.obj, m) {
            violate("handle", &format!("{}: {e}", what()));
        }
        if let V::Canvas(c) = &m.v {
            if !m.kids.iter().any(|k| ["_inlink", "_outlink", "source"].contains(&k.name.as_str())) {
                if let Err(e) = check_canvas(get_image(&h.n), c) {
                    violate("handle", &format!("{}: {e}", what()));
                }
            }
        }
        let touched = self.replaces || h.inst.replaced.lock().unwrap().iter().any(|x| h.path.is_empty() || x.starts_with(&h.path));
        let prop = !matches!(m.v, V::Dir | V::Img);
        if !touched && (self.strict || prop) && (!prop || !has_uol(m)) {
            must_match("handle", &what(), &h.n, m, FULL);
        }
        if self.single {
            // whatever is above: these return
            let full = rd(&h.n, |g| (g.get_full_path(), g.get_path_from_root(), g.get_path_from_image()));
            if !full.0.ends_with(&m.name) {
                violate("handle", &format!("{}: its path is {:?}", what(), full.0));
            }
        }
        let kids: Vec<&M> = m.kids.iter().filter(|k| !matches!(k.v, V::Uol(_))).collect();
        if prop && !touched && !kids.is_empty() {
            let k = kids[r as usize % kids.len()];
            match rd(&h.n, |g| g.at_path(&k.name)) {
                Some(x) => {
                    if let Err(e) = check_value(&snap(&x).obj, k) {
                        violate("handle", &format!("{}: child {:?}: {e}", what(), k.name));
                    }
                }
                None => violate("handle", &format!("{}: child {:?} is gone", what(), k.name)),
            }
        }
    }
    fn sweep(&self) {
        if !self.single {
            return;
        }
        let mut live: Vec<Arc<Inst>> = self.pool.lock().unwrap().iter().map(|h| h.inst.clone()).collect();
        live.extend(self.fs.iter().filter_map(|f| f.root.lock().unwrap().as_ref().map(|h| h.inst.clone())));
        for i in self.insts.lock().unwrap().iter() {
            if !live.iter().any(|l| Arc::ptr_eq(l, i)) {
                i.released(&self.fs[i.fi].w.path);
            }
        }
        if live.is_empty() && disk::held() != (0, 0) {
            violate("leak", &format!("nothing is open but (descriptors, mappings) {:?} are held", disk::held()));
        }
    }
}
/// an image whose nodes refer to each other in every way, circles included
fn knot(r: u64) -> FileW {
    let mut rng = Rng::new(r);
    let mut m = M::new("K.img", V::Img);
    let n = 2 + rng.below(4);
    for i in 0..n {
        let mut a = M::new(&format!("p{i}"), V::Prop);
        let inner = rng.chance(1, 2);
        let pre = if inner { "../../" } else { "../" };
        let mut ks = vec![M::new("v", V::Int(i as i32))];
        for j in 0..1 + rng.below(3) {
            let t = match rng.below(6) {
                0 => format!("{pre}p{}/l0", rng.below(n)),
                1 => format!("{pre}p{}/in", rng.below(n)),
                2 => format!("{pre}p{}/in/l0", rng.below(n)),
                3 => "..".to_string(),
                _ => format!("{pre}p{}", rng.below(n)),
            };
            ks.push(M::new(&format!("l{j}"), V::Uol(t)));
        }
        if inner {
            a.kids.push(M::with("in", V::Prop, ks));
        } else {
            a.kids = ks;
        }
        m.kids.push(a);
    }
    wrap_img("", m, *rng.pick(&REGIONS), &mut rng)
}
pub fn run(p: &Plan) {
    let w = World::make(p);
    let mut bad = vec![];
    for (i, o) in p.faults.iter().enumerate() {
        let f = &w.files[i % w.files.len()];
        let mut b = f.bytes.clone();
        damage::apply(f, &mut b, o, &w.files[0].bytes);
        let f = FileW { path: format!("bad{i}/{}", f.path), bytes: b, ..f.clone() };
        f.write();
        bad.push(f);
    }
    let ops: HashSet<&str> = p.threads.iter().flatten().map(|o| o.k.as_str()).collect();
    let single = p.threads.len() == 1;
    let strict = single || !["unparse", "replace", "walk"].iter().any(|k| ops.contains(k));
    let c = Arc::new(Ctx {
        fs: w.files.iter().map(|f| F { w: f.clone(), all: f.root.paths_where(|_| true), root: Mutex::new(None) }).collect(),
        pool: Default::default(),
        insts: Default::default(),
        bad,
        strict,
        replaces: !single && ops.contains("replace"),
        single,
    });
    for i in 0..c.fs.len() {
        c.open(i);
    }
    let c2 = c.clone();
    threads(p, move |tid, o| {
        let c = &c2;
        let f = &c.fs[o.a as usize % c.fs.len()];
        let root = || f.root.lock().unwrap().clone();
        let held = disk::held();
        match o.k.as_str() {
            "take" => {
                // from the root, or from a handle above
                let path = if o.b % 8 == 0 { String::new() } else { f.all.get(o.b as usize % f.all.len().max(1)).cloned().unwrap_or_default() };
                if link_in(&f.w, &path) {
                    return;
                }
                let from = {
                    let pool = c.pool.lock().unwrap();
                    let up: Vec<&H> = pool.iter().filter(|h| h.inst.fi == o.a as usize && (h.path.is_empty() || path == h.path || path.starts_with(&format!("{}/", h.path)))).collect();
                    if up.is_empty() || o.c % 2 == 0 {
                        None
                    } else {
                        Some(up[o.c as usize % up.len()].clone())
                    }
                };
                let Some(from) = from.or_else(root) else { return };
                if from.inst.replaced.lock().unwrap().iter().any(|x| path == *x || path.starts_with(&format!("{x}/"))) {
                    return;
                }
                if let Some(n) = c.down(&from, &path) {
                    if from.inst.replaced.lock().unwrap().iter().any(|x| path == *x || path.starts_with(&format!("{x}/"))) {
                        return;
                    }
                    from.inst.note(&path, &n);
                    c.pool.lock().unwrap().push(H { inst: from.inst.clone(), path, n });
                } else if c.single {
                    violate("handle", &format!("{path:?} of {} is not found below {:?}", f.w.path, from.path));
                }
            }
            "use" => {
                let h = {
                    let pool = c.pool.lock().unwrap();
                    if pool.is_empty() {
                        None
                    } else {
                        Some(pool[o.b as usize % pool.len()].clone())
                    }
                };
                if let Some(h) = h {
                    c.usable(&h, o.c);
                }
            }
            "droproot" => {
                count(C_DROP);
                let h = f.root.lock().unwrap().take();
                drop(h);
                c.sweep();
            }
            "drop" => {
                let h = {
                    let mut pool = c.pool.lock().unwrap();
                    if pool.is_empty() {
                        None
                    } else {
                        let i = o.b as usize % pool.len();
                        Some(pool.remove(i))
                    }
                };
                count(C_DROP);
                drop(h);
                c.sweep();
            }
            "open" => {
                if o.b % 2 == 0 || f.root.lock().unwrap().is_none() {
                    c.open(o.a as usize % c.fs.len());
                    c.sweep();
                }
            }
            "unparse" => {
                let n = if o.b % 2 == 0 {
                    root().map(|h| h.n)
                } else {
                    let pool = c.pool.lock().unwrap();
                    let v: Vec<&H> = pool.iter().filter(|h| matches!(at(&c.fs[h.inst.fi].w, &h.path).v, V::Dir | V::Img)).collect();
                    if v.is_empty() {
                        None
                    } else {
                        Some(v[o.c as usize % v.len()].n.clone())
                    }
                };
                if let Some(n) = n {
                    unparse(&n);
                }
            }
            // something else takes the place of a node
            "replace" => {
                let Some(h) = root() else { return };
                let path = f.all.get(o.b as usize % f.all.len().max(1)).cloned().unwrap_or_default();
                if path.is_empty() || link_in(&f.w, &path) {
                    return;
                }
                let (up, nm) = path.rsplit_once('/').unwrap_or(("", &path));
                h.inst.replaced.lock().unwrap().push(path.clone());
                if let Some(n) = c.down(&h, up) {
                    let x = WzNode::from_str(nm, WzObjectType::Value(WzValue::Int(-7)), Some(&n)).into_lock();
                    wr(&n, |g| g.add(&x));
                }
            }
            "walk" => {
                let Some(h) = root() else { return };
                count(C_WALK);
                walk_node(&h.n, o.b % 2 == 0, &|x| {
                    if o.c % 4 == 0 {
                        let _ = rd(x, |g| g.children.len());
                    }
                });
            }
            "tree" => {
                let Some(h) = root() else { return };
                if c.strict && h.inst.replaced.lock().unwrap().is_empty() {
                    must_match("handle", &f.w.path, &h.n, &f.w.root, FULL);
                    h.inst.note_all(&h.n);
                }
            }
            // opening while calls fail
            "fail" => {
                let call = [disk::OPEN, disk::MMAP, disk::STAT][(o.b % 3) as usize];
                let errno = [libc::EIO, libc::ENOMEM, libc::EMFILE, libc::EACCES, libc::EINTR][(o.c % 5) as usize];
                disk::mine((0..1 + (o.b >> 4) % 2).map(|i| Hit { call, nth: i, errno, ..Default::default() }).collect());
                let r = f.w.open(None);
                disk::mine_done();
                if let Err(e) = &r {
                    count(C_ERR);
                    drop(e.to_string());
                }
                let failed = r.is_err();
                drop(r);
                if c.single && disk::held() != held {
                    violate("leak", &format!("{} an open of {} (descriptors, mappings) {:?} are held, {held:?} before", if failed { "after the failure of" } else { "after" }, f.w.path, disk::held()));
                }
            }
            // damaged: loads fail anywhere
            "bad" => {
                let b = &c.bad[o.b as usize % c.bad.len()];
                count(C_DAMAGE);
                let inst = Inst { fi: 0, nodes: Default::default(), readers: Default::default(), replaced: Default::default() };
                match b.open(None) {
                    Ok(n) => {
                        let n = n.into_lock();
                        inst.note("", &n);
                        let mut todo = vec![n.clone()];
                        let mut left = 200;
                        while let Some(x) = todo.pop() {
                            if parse(&x).is_err() {
                                inst.note("failed", &x);
                            }
                            if left > 0 {
                                left -= 1;
                                todo.extend(snap(&x).kids.into_iter().map(|k| k.1).filter(|k| parsed_flag(&snap(k).obj).is_some()));
                            }
                        }
                        inst.note_all(&n);
                    }
                    Err(e) => {
                        count(C_ERR);
                        drop(e.to_string());
                    }
                }
                inst.released(&format!("a damaged {}", b.path));
                if c.single && disk::held() != held {
                    violate("leak", &format!("after the use of a damaged {} (descriptors, mappings) {:?} are held, {held:?} before", b.path, disk::held()));
                }
            }
            "knot" => {
                let mut k = knot(o.b);
                k.path = format!("t{tid}{}", k.path);
                k.write();
                let inst = Inst { fi: 0, nodes: Default::default(), readers: Default::default(), replaced: Default::default() };
                let n = k.open_arc();
                if let Err(e) = parse(&n) {
                    violate("handle", &format!("loading an image with links fails: {e}"));
                }
                inst.note_all(&n);
                // links that were left are tried once more, then everything again
                let again = |n: &WzNodeArc| {
                    let mut todo = vec![n.clone()];
                    let mut seen = HashSet::new();
                    let mut keep = vec![];
                    while let Some(x) = todo.pop() {
                        if seen.insert(Arc::as_ptr(&x) as usize) {
                            keep.push(x.clone());
                            let s = snap(&x);
                            if matches!(s.obj, WzObjectType::Value(WzValue::UOL(_))) {
                                count(C_LINK);
                                resolve_uol(&x, None);
                            }
                            todo.extend(s.kids.into_iter().map(|k| k.1));
                        }
                    }
                };
                if o.c % 2 == 0 {
                    again(&n);
                }
                inst.note_all(&n);
                if o.c % 3 == 0 {
                    unparse(&n);
                    let _ = parse(&n);
                    inst.note_all(&n);
                }
                drop(n);
                inst.released("an image whose links lead to one another");
            }
            // a data folder is loaded, all of it or up to a failure, and let go
            "folder" => {
                let mut rng = Rng::new(o.b);
                let shape = crate::model::Shape { kids: 2, depth: 1, big: 30, side: 3, canvas: 60, sound: 60, str_: 100, ..Default::default() };
                let pack = make_pack((o.b >> 8) % 7, &mut rng);
                let iv = if matches!(pack, Pack::Pkg1 { .. }) { *rng.pick(&REGIONS[..3]) } else { BMS };
                let dir = format!("t{tid}data{:x}", o.b);
                let img = |n: &str, rng: &mut Rng| crate::model::image(n, &shape, rng);
                let mut files = vec![];
                let mut b = M::new("Base", V::Dir);
                b.kids.push(img("base0.img", &mut rng));
                b.kids.push(M::new("T0", V::Dir));
                files.push(wrap_wz(&join(&dir, "Base"), b, iv, pack.clone(), &mut rng));
                for i in 0..1 + rng.below(3) {
                    let stem = if i == 0 { "T0".to_string() } else { format!("T0_{:03}", i - 1) };
                    let mut m = M::new(&stem, V::Dir);
                    m.kids.push(img(&format!("part{i}.img"), &mut rng));
                    let inner = img(&format!("under{i}.img"), &mut rng);
                    m.kids.push(M::with("c", V::Dir, vec![inner]));
                    if i == 0 && rng.chance(1, 2) {
                        m.kids.push(M::new("S", V::Dir));
                        let deep = img("deeper.img", &mut rng);
                        files.push(wrap_wz(&join(&join(&dir, "T0"), "S"), M::with("S", V::Dir, vec![deep]), iv, pack.clone(), &mut rng));
                    }
                    files.push(wrap_wz(&join(&dir, "T0"), m, iv, pack.clone(), &mut rng));
                }
                for f in &files {
                    f.write();
                }
                let inst = Inst { fi: 0, nodes: Default::default(), readers: Default::default(), replaced: Default::default() };
                let fault = o.c % 3 == 0;
                if fault {
                    disk::mine(vec![Hit { call: [disk::OPEN, disk::MMAP, disk::STAT][(o.c >> 4) as usize % 3], nth: (o.c >> 8) % 8, errno: libc::EIO, ..Default::default() }]);
                }
                count(C_OPEN);
                let r = wz_reader::util::resolve_base(join(&join(&dir, "Base"), "Base.wz"), None);
                if fault {
                    disk::mine_done();
                }
                match r {
                    Ok(n) => {
                        inst.note_all(&n);
                        let Some(t) = rd(&n, |g| g.at("T0")) else { violate("handle", &format!("a data folder of {pack:?} {iv:?} loads without its T0: {:?}", snap(&n).kids.iter().map(|k| k.0.clone()).collect::<Vec<_>>())) };
                        let kids: Vec<WzNodeArc> = snap(&t).kids.into_iter().map(|k| k.1).collect();
                        drop((n, t));
                        // what is in it outlives it
                        for k in &kids {
                            if let Err(e) = parse(k) {
                                violate("handle", &format!("parsing what a data folder held fails: {e}"));
                            }
                            inst.note_all(k);
                        }
                    }
                    Err(e) if fault => {
                        count(C_ERR);
                        drop(e.to_string());
                    }
                    Err(e) => violate("handle", &format!("loading a data folder of {pack:?} {iv:?} fails: {e}")),
                }
                inst.released("a data folder");
                if c.single && disk::held() != held {
                    violate("leak", &format!("after the use of a data folder (descriptors, mappings) {:?} are held, {held:?} before", disk::held()));
                }
            }
            // what one file holds goes into another
            "merge" => {
                let g = &c.fs[o.b as usize % c.fs.len()];
                let (x, y) = (f.w.open_arc(), g.w.open_arc());
                let inst = Inst { fi: 0, nodes: Default::default(), readers: Default::default(), replaced: Default::default() };
                for n in [&x, &y] {
                    let mut todo = vec![n.clone()];
                    while let Some(n) = todo.pop() {
                        if o.c % 3 != 0 || Arc::ptr_eq(&n, &x) || Arc::ptr_eq(&n, &y) {
                            let _ = parse(&n);
                        }
                        todo.extend(snap(&n).kids.into_iter().map(|k| k.1).filter(|k| parsed_flag(&snap(k).obj).is_some()));
                    }
                    inst.note_all(n);
                }
                count(C_MERGE);
                wr(&x, |w| w.transfer_childs(&y));
                inst.note_all(&y);
                drop(x);
                if o.c % 2 == 0 {
                    // what was moved is used without the file it came from
                    for k in snap(&y).kids {
                        let _ = parse(&k.1);
                    }
                    inst.note_all(&y);
                }
                drop(y);
                inst.released("two files, one merged into the other");
                if c.single && disk::held() != held {
                    violate("leak", &format!("after a merge (descriptors, mappings) {:?} are held, {held:?} before", disk::held()));
                }
            }
            k => harness_error(k),
        }
    });
    let cc = c.clone();
    on_thread("at the end", move || {
        let c = &cc;
        // what is left is used while it becomes less
        loop {
            let h = c.pool.lock().unwrap().pop();
            let Some(h) = h else { break };
            c.usable(&h, 1);
            if c.pool.lock().unwrap().len() == 2 {
                for f in &c.fs {
                    let r = f.root.lock().unwrap().take();
                    drop(r);
                }
            }
        }
        for f in &c.fs {
            let r = f.root.lock().unwrap().take();
            drop(r);
        }
        for i in c.insts.lock().unwrap().iter() {
            i.released(&c.fs[i.fi].w.path);
        }
        if disk::held() != (0, 0) {
            violate("leak", &format!("every handle was dropped but (descriptors, mappings) {:?} are held", disk::held()));
        }
    });
}
