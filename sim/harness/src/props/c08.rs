//! Damage stays contained: untouched data is still read correctly.
use crate::alloc;
use crate::damage;
use crate::disk;
use crate::gen::*;
use crate::props::c06;
use crate::props::c13::link_in;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use wz_reader::util::walk_node;
use wz_reader::{WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 1);
    p.set("files", 2);
    for i in 0..2 {
        p.set(&format!("form{i}"), *rng.pick(&[0, 0, 1, 2, 4, 5, 6]));
        p.set(&format!("region{i}"), rng.below(3) as i64);
    }
    p.set("width", 2 + rng.below(5) as i64);
    p.set("big", *rng.pick(&[60, 300, 600]));
    p.set("side", *rng.pick(&[4, 9]));
    p.set("long", 0);
    // 0: anything inside some images, 1: payload bytes only
    p.set("mode", rng.chance(1, 3) as i64);
    // damaged before the archive is opened, or under the open archive
    p.set("late", rng.chance(1, 2) as i64);
    // what happens to the other archive: 0 nothing, 1 damaged, 2 removed, 3 damaged before being opened
    p.set("other", *rng.pick(&[0, 0, 1, 2, 3]));
    for _ in 0..*rng.pick(&[1, 1, 2, 4, 8]) {
        p.faults.push(op("hit", rng.next() >> 24, rng.next() >> 24, rng.next() >> 32));
    }
    let nt = *rng.pick(&[1, 1, 2, 3]);
    for _ in 0..nt {
        let n = if nt == 1 { 4 + rng.below(10) } else { 2 + rng.below(6) };
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(16) {
                        0..=3 => "victim",
                        4..=8 => "image",
                        9 => "list",
                        10 => "value",
                        11 | 12 => "look",
                        13 => "unparse",
                        14 => "other",
                        _ => *rng.pick(&["walk", "hurt", "top", "json"]),
                    };
                    op(k, rng.next() >> 32, rng.next() >> 32, rng.below(100))
                })
                .collect(),
        );
    }
}
/// a later block of the same image, a run of zeros, other values: inside [a, a+n)
fn hit(b: &mut [u8], a: usize, n: usize, r: &mut Rng) {
    if n == 0 {
        return;
    }
    let q = a + r.below(n as u64) as usize;
    let len = match r.below(4) {
        0 => 1,
        1 => 1 + r.below(8) as usize,
        2 => 1 + r.below(512) as usize,
        _ => n,
    }
    .min(a + n - q);
    let keep = b.to_vec();
    match r.below(4) {
        0 => b[q..q + len].fill(0),
        1 => b[q..q + len].iter_mut().for_each(|x| *x = r.next() as u8),
        _ => damage::value(b, q, r),
    }
    // never outside
    for i in (0..a).chain(a + n..b.len()) {
        b[i] = keep[i];
    }
    if *b != keep[..] {
        count(C_DAMAGE);
    }
}
struct Ctx {
    f: FileW,
    other: FileW,
    /// with the payload bytes the file stores now
    model: M,
    payload_only: bool,
    single: bool,
    /// paths of damaged images (mode 0), of values with damaged payload that is not stored plainly (mode 1)
    hurt: Vec<String>,
    fine: Vec<String>,
    values: Vec<String>,
    root: WzNodeArc,
    oroot: Option<WzNodeArc>,
    obroken: bool,
    late: Mutex<Option<Vec<u8>>>,
}
impl Ctx {
    fn nav(&self, p: &str) -> Option<WzNodeArc> {
        let mut n = self.root.clone();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            n = rd(&n, |g| g.at(s))?;
        }
        Some(n)
    }
    fn inside(&self, p: &str) -> bool {
        self.hurt.iter().any(|h| p == h || p.starts_with(&format!("{h}/")))
    }
    fn strike(&self) {
        if let Some(b) = self.late.lock().unwrap().take() {
            for (i, x) in b.iter().enumerate() {
                if *x != self.f.bytes[i] {
                    disk::poke(&self.f.path, i, &[*x]);
                }
            }
        }
    }
    /// an image (mode 0: an intact one) loads and reads as stored
    fn image(&self, n: &WzNodeArc, path: &str, how: How) {
        let m = at_m(&self.model, path);
        if !self.payload_only {
            must_match("image", &format!("the intact image {path:?}"), n, m, how);
            return;
        }
        let h = must_match("image", &format!("image {path:?} with damaged payload"), n, m, How { decode: false, ..how });
        for (p, x) in &h {
            let full = join_(path, p);
            if link_in(&self.f, &full) {
                continue;
            }
            self.value(x, &full);
        }
    }
    fn value(&self, x: &WzNodeArc, full: &str) {
        let o = snap(x).obj;
        if self.hurt.iter().any(|h| h == full) {
            // its content may be anything, its description not
            let m = at_m(&self.model, full);
            if kind_name(&o) != model_kind(&m.v) {
                violate("value", &format!("{full:?} is a {} with damaged payload, the file stores a {}", kind_name(&o), model_kind(&m.v)));
            }
            if let (WzObjectType::Property(wz_reader::property::WzSubProperty::PNG(p)), V::Canvas(c)) = (&o, &m.v) {
                if (p.width, p.height) != (c.w, c.h) {
                    violate("value", &format!("{full:?}: size {}x{} with damaged payload, stored {}x{}", p.width, p.height, c.w, c.h));
                }
            }
            c06::use_node(x, 1);
            return;
        }
        if let Err(e) = check_value(&o, at_m(&self.model, full)) {
            violate("value", &format!("{full:?}, not damaged: {e}"));
        }
    }
}
fn join_(a: &str, b: &str) -> String {
    if b.is_empty() {
        a.into()
    } else {
        join(a, b)
    }
}
fn at_m<'a>(m: &'a M, p: &str) -> &'a M {
    if p.is_empty() {
        m
    } else {
        m.at(p).unwrap()
    }
}
pub fn run(p: &Plan) {
    let w = World::make(p);
    let (f, other) = (w.files[0].clone(), w.files[1].clone());
    let payload_only = p.knob("mode") == 1 && !f.lay.pay.is_empty();
    let mut b = f.bytes.clone();
    let mut model = f.root.clone();
    let mut hurt: Vec<String> = vec![];
    if f.lay.images.is_empty() {
        return;
    }
    if payload_only {
        for o in &p.faults {
            let (path, a, n) = &f.lay.pay[o.a as usize % f.lay.pay.len()];
            if *n == 0 || !f.lay.images.iter().any(|i| *a > i.1 && a + n <= i.1 + i.2) {
                continue;
            }
            hit(&mut b, *a, *n, &mut Rng::new(o.b ^ o.c));
            let now = &b[*a..a + n];
            let Some(m) = model.at_mut(path) else { harness_error(&format!("payload of {path:?}")) };
            match &mut m.v {
                V::Raw(d) | V::Video(d) => *d = now.to_vec(),
                V::Sound(s) => s.data = now.to_vec(),
                V::Canvas(_) | V::Lua(_) => hurt.push(path.clone()),
                _ => harness_error("payload of another kind"),
            }
        }
    } else {
        let mut vs: Vec<usize> = vec![];
        for o in &p.faults {
            let i = o.a as usize % f.lay.images.len();
            // most of the damage in few images
            let i = if vs.is_empty() || o.c % 3 == 0 { i } else { vs[0] };
            vs.push(i);
            let (path, a, n) = &f.lay.images[i];
            // opening verifies the first byte
            if *n > 1 {
                hit(&mut b, a + 1, n - 1, &mut Rng::new(o.b ^ o.c));
            }
            hurt.push(path.clone());
        }
    }
    hurt.sort();
    hurt.dedup();
    let late = p.knob("late") != 0;
    if !late {
        disk::put(&f.path, &b);
    }
    c06::limits(f.bytes.len() + other.bytes.len());
    let root = match f.open(None) {
        Ok(n) => n.into_lock(),
        Err(e) => violate("open", &format!("damage inside images keeps the archive from being opened: {e}")),
    };
    if let Err(e) = parse(&root) {
        violate("listing", &format!("damage inside images keeps the archive from being listed: {e}"));
    }
    let ob = p.knob("other");
    let mut od = other.bytes.clone();
    let mut r = Rng::new(p.seed ^ 0x99);
    if ob == 1 || ob == 3 {
        for _ in 0..1 + r.below(4) {
            let o = damage::draw(&mut r);
            damage::apply(&other, &mut od, &o, &f.bytes);
        }
    }
    if ob == 3 {
        disk::put(&other.path, &od);
    }
    let oroot = match other.open(None) {
        Ok(n) => Some(n.into_lock()),
        Err(e) if ob != 3 => violate("open", &format!("the other archive: {e}")),
        Err(_) => None,
    };
    let imgs = f.image_paths();
    let fine: Vec<String> = if payload_only { imgs } else { imgs.into_iter().filter(|i| !hurt.contains(i)).collect() };
    let values = f.root.paths_where(|m| !matches!(m.v, V::Dir | V::Img));
    let c = Arc::new(Ctx { f, other, model, payload_only, single: p.threads.len() == 1, hurt, fine, values, root, oroot, obroken: ob == 1 || ob == 3, late: Mutex::new(if late { Some(b) } else { None }) });
    if payload_only || p.seed & 3 != 0 {
        // otherwise only when an operation says so
        c.strike();
    }
    let c2 = c.clone();
    let ob2 = Mutex::new(if ob == 1 && od.len() == c.other.bytes.len() { Some(od) } else { None });
    threads(p, move |_, o| {
        let c = &c2;
        let pick = |v: &[String]| if v.is_empty() { None } else { Some(v[o.a as usize % v.len()].clone()) };
        match o.k.as_str() {
            "hurt" => c.strike(),
            "victim" => {
                let Some(path) = pick(&c.hurt) else { return };
                let Some(n) = c.nav(&path) else { return };
                c06::exercise(&n, o.b, 300);
                if o.c < 30 {
                    unparse(&n);
                }
            }
            "image" => {
                let Some(path) = pick(&c.fine) else { return };
                match c.nav(&path) {
                    Some(n) if c.single => c.image(&n, &path, FULL),
                    Some(n) => {
                        // another thread may unload it meanwhile
                        if let Err(e) = parse(&n) {
                            violate("image", &format!("parsing the intact image {path:?} fails: {e}"));
                        }
                    }
                    None => violate("listing", &format!("image {path:?} is not listed")),
                }
            }
            "value" | "look" => {
                let Some(path) = pick(&c.values) else { return };
                if link_in(&c.f, &path) || !c.payload_only && c.inside(&path) {
                    return;
                }
                let got = if o.k == "value" {
                    match c.nav(&path) {
                        Some(n) => n,
                        None => return,
                    }
                } else {
                    let Some(ip) = c.fine.iter().find(|i| path.starts_with(&format!("{i}/"))) else { return };
                    let Some(n) = c.nav(ip) else { return };
                    count(C_LOOKUP);
                    let r = match snap(&n).obj {
                        WzObjectType::Image(i) => i.at_path(&path[ip.len() + 1..]),
                        WzObjectType::MsImage(i) => i.to_wz_image().at_path(&path[ip.len() + 1..]),
                        _ => return,
                    };
                    match r {
                        Ok(n) => n,
                        Err(e) => violate("image", &format!("looking up {path:?} in an intact image: {e}")),
                    }
                };
                c.value(&got, &path);
            }
            "unparse" => {
                if let Some(n) = pick(&c.fine).and_then(|x| c.nav(&x)) {
                    unparse(&n);
                }
            }
            "list" => listing(c),
            "top" if c.single => {
                unparse(&c.root);
                listing(c);
            }
            "walk" => {
                count(C_WALK);
                if c06::shallow(&c.root) {
                    let seen: Mutex<std::collections::HashMap<String, u32>> = Default::default();
                    walk_node(&c.root, true, &|x| {
                        drop(snap(x));
                        let p = rd(x, |g| if c.single { g.get_full_path() } else { String::new() });
                        *seen.lock().unwrap().entry(p).or_default() += 1;
                    });
                    if c.single {
                        // everything but what is inside a damaged image (links of which may lead anywhere)
                        let seen = seen.into_inner().unwrap();
                        for (p, n) in super::c13::visits(&c.f, "") {
                            let rel = p[c.f.root.name.len()..].trim_start_matches('/');
                            if !c.payload_only && c.inside(rel) && !c.hurt.iter().any(|h| h == rel) {
                                continue;
                            }
                            let got = seen.get(&p).copied().unwrap_or(0);
                            if got < n {
                                violate("walk", &format!("a forced walk comes to {p:?} {got} times instead of {n}"));
                            }
                        }
                        count(C_OKCHECK);
                    }
                }
            }
            "json" => {
                if c06::shallow(&c.root) {
                    let _ = rd(&c.root, |g| g.to_simple_json().map(|j| j.to_string().len()));
                }
            }
            "other" => {
                let Some(r) = &c.oroot else { return };
                match ob {
                    0 => {
                        must_match("others", "the other archive", r, &c.other.root, FULL);
                    }
                    2 => {
                        disk::sim_free(|| drop(std::fs::remove_file(&c.other.path)));
                        must_match("others", "the other archive, removed while open", r, &c.other.root, FULL);
                    }
                    _ => {
                        if let Some(d) = ob2.lock().unwrap().take() {
                            for (i, x) in d.iter().enumerate() {
                                if *x != c.other.bytes[i] {
                                    disk::poke(&c.other.path, i, &[*x]);
                                }
                            }
                        }
                        c06::exercise(r, o.b, 300);
                    }
                }
            }
            _ => {}
        }
    });
    c.strike();
    listing(&c);
    // in any order, after the damaged ones or before
    let mut r = Rng::new(p.seed ^ 0x55);
    let mut order: Vec<(bool, String)> = c.fine.iter().map(|x| (false, x.clone())).chain(c.hurt.iter().map(|x| (true, x.clone()))).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    for (bad, path) in &order {
        let Some(n) = c.nav(path) else {
            if !bad {
                violate("listing", &format!("image {path:?} is not listed"));
            }
            continue;
        };
        if *bad {
            c06::exercise(&n, 3, 100);
        } else {
            if r.chance(1, 2) {
                unparse(&n);
            }
            c.image(&n, path, FULL);
        }
    }
    // once more, everything loaded
    for x in &c.fine {
        if let Some(n) = c.nav(x) {
            c.image(&n, x, FULL);
        }
    }
    if let (Some(r), false) = (&c.oroot, c.obroken) {
        must_match("others", "the other archive", r, &c.other.root, FULL);
    }
    alloc::CAP.store(usize::MAX, Relaxed);
    alloc::LIVE_CAP.store(usize::MAX, Relaxed);
}
/// the names of all directories and images
fn listing(c: &Ctx) {
    count(C_LISTING);
    must_match("listing", "the archive's listing", &c.root, &c.f.root, LISTING);
}
