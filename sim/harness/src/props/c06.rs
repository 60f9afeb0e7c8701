//! Damaged files give an error or a result, never a crash, a hang or a memory bomb.
use crate::alloc;
use crate::damage;
use crate::disk;
use crate::gen::BMS;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::collections::HashSet;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use wz_reader::property::{get_image, resolve_string_from_node, WzSubProperty, WzValue};
use wz_reader::util::node_util::{get_node_without_parse, resolve_inlink, resolve_outlink, resolve_uol};
use wz_reader::util::walk_node;
use wz_reader::{WzNodeArc, WzNodeCast, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 1);
    p.set("big", *rng.pick(&[40, 300]));
    p.set("side", *rng.pick(&[4, 9, 20]));
    p.set("canvas", *rng.pick(&[120, 300]));
    p.set("long", 0);
    // when: before opening, or while the file is open
    p.set("late", rng.chance(1, 4) as i64);
    p.set("wform", *rng.pick(&[0, 1, 2, 3, 4, 5]));
    // a file nested far deeper than any real one
    if rng.chance(1, 40) {
        p.set("deep", *rng.pick(&[20, 100, 1000, 5000, 30000]));
        p.set("deepkind", rng.below(8) as i64);
    }
    let mut n = *rng.pick(&[1, 1, 1, 2, 3, 6]);
    if p.knobs.get("deepkind").is_some_and(|k| *k >= 5) && rng.chance(2, 3) {
        n = 0;
    }
    for _ in 0..n {
        p.faults.push(damage::draw(rng));
    }
    p.threads.push(vec![op("exercise", rng.next() >> 32, 0, 0)]);
    if rng.chance(1, 4) {
        p.threads.push(vec![op("exercise", rng.next() >> 32, 1, 0), op("witness", 0, 0, 0)]);
    }
}
/// everything a client can ask of a tree, nodes in any state
pub fn exercise(root: &WzNodeArc, r: u64, max: usize) {
    let mut seen: HashSet<usize> = HashSet::new();
    let mut todo = vec![root.clone()];
    let mut n = 0;
    // a node that is gone would leave its address to another one
    let mut keep = vec![];
    while let Some(x) = todo.pop() {
        if !seen.insert(Arc::as_ptr(&x) as usize) || n > max {
            continue;
        }
        keep.push(x.clone());
        n += 1;
        if let Err(e) = parse(&x) {
            let _ = (e.to_string(), format!("{e:?}"));
        }
        use_node(&x, r.wrapping_add(n as u64));
        todo.extend(snap(&x).kids.into_iter().map(|k| k.1));
    }
}
pub fn use_node(x: &WzNodeArc, r: u64) {
    count(C_DECODE);
    let s = snap(x);
    match &s.obj {
        WzObjectType::Property(WzSubProperty::PNG(p)) => {
            match p.extract_png() {
                Ok(i) => drop(i.to_rgba8()),
                Err(e) => drop((e.to_string(), count(C_ERR))),
            }
            let _ = get_image(x);
        }
        WzObjectType::Property(WzSubProperty::Sound(p)) => {
            let _ = p.get_buffer();
            let _ = p.write_to(&mut std::io::Cursor::new(Vec::new()));
            if r % 16 == 0 {
                let _ = p.save("out.bin".into());
            }
        }
        WzObjectType::Value(v) => match v {
            WzValue::RawData(d) => drop(d.get_buffer()),
            WzValue::Video(d) => drop(d.get_buffer()),
            WzValue::Lua(l) => drop(l.extract_lua()),
            WzValue::String(_) | WzValue::UOL(_) => {
                let t = resolve_string_from_node(x).unwrap_or_default();
                if let WzValue::UOL(u) = v {
                    let _ = u.get_string();
                    resolve_uol(x, None);
                }
                if t.len() < 2000 {
                    let _ = resolve_inlink(&t, x);
                    let _ = resolve_outlink(&t, x, true);
                }
            }
            _ => {}
        },
        WzObjectType::Image(i) => {
            let _ = i.at_path("a/b");
            if let Some(k) = s.kids.first() {
                let _ = i.at_path(&format!("{}/x/y", k.0));
                let _ = i.at_path(&k.0);
            }
        }
        _ => {}
    }
    rd(x, |g| {
        let _ = (g.get_full_path(), g.get_path_from_root(), g.get_path_from_image());
    });
}
fn in_memory(f: &FileW, b: Vec<u8>) {
    use wz_reader::util::string_decryptor::guess_decryptor_from_wz_file;
    use wz_reader::version::*;
    count(C_OPEN);
    let reader = simstd::sim::client(|| {
        let _ = (guess_iv_from_wz_file(&b), guess_iv_from_wz_img(&b), guess_decryptor_from_wz_file(&b).is_some());
        let _ = (verify_iv_from_wz_file(&b, &f.iv).is_ok(), verify_iv_from_wz_img(&b, &f.iv));
        Arc::new(wz_reader::WzReader::from_buff(&b).with_iv(f.iv))
    });
    let images = if f.lay.images.is_empty() { vec![(String::new(), 0, b.len())] } else { f.lay.images.clone() };
    for (p, at, len) in images.iter().take(4) {
        let name: wz_reader::WzNodeName = p.rsplit('/').next().unwrap_or("").into();
        let img = wz_reader::WzImage::new(&name, *at, *len, &reader);
        let _ = simstd::sim::client(|| img.resolve_children(None).is_ok());
        exercise(&wz_reader::WzNode::new(&name, img, None).into_lock(), 7, 300);
    }
}
/// operations on the tree as a whole
fn whole(root: &WzNodeArc, r: u64, f: &FileW) {
    let all = f.root.paths();
    if all.is_empty() {
        return;
    }
    for i in 0..6u64 {
        let x = &all[(r.wrapping_mul(31).wrapping_add(i * 7919) % all.len() as u64) as usize];
        let _ = get_node_without_parse(root, x);
        let _ = rd(root, |g| g.at_path(x));
        if let Ok(n) = rd(root, |g| g.at_path_parsed(x)) {
            use_node(&n, r);
        }
    }
    let _ = rd(root, |g| g.to_simple_json().map(|j| j.to_string().len()));
    let _ = rd(root, |g| g.to_json().map(|j| j.to_string().len()));
}
pub fn shallow(root: &WzNodeArc) -> bool {
    // many links to links can make a small file a large tree, and a link must not make it endless
    fn go(n: &WzNodeArc, up: &mut Vec<usize>, left: &mut u64) -> bool {
        let p = Arc::as_ptr(n) as usize;
        if up.contains(&p) {
            violate("endless", "a node of the tree is below itself");
        }
        if *left == 0 {
            return false;
        }
        *left -= 1;
        up.push(p);
        let ok = snap(n).kids.iter().all(|k| go(&k.1, up, left));
        up.pop();
        ok
    }
    go(root, &mut vec![], &mut 200_000)
}
pub fn limits(len: usize) {
    let m = (48 << 20) + 2500 * len;
    alloc::CAP.store(m, Relaxed);
    alloc::LIVE_CAP.store(alloc::LIVE.load(Relaxed) + m, Relaxed);
}
/// links in rings: to the next container, to the one they are in, to themselves and to the image
fn rings(n: usize) -> Vec<u8> {
    use crate::gen::{M, V};
    let mut top = M::new("deep.img", V::Img);
    for i in 0..n {
        let mut m = M::new(&format!("{i}"), V::Prop);
        let next = (i + 1) % n;
        for (k, to) in [("n", format!("../{next}")), ("m", format!("../{next}/n/n")), ("s", "s".into()), ("o", ".".into()), ("u", "..".into()), ("v", "../..".into()), ("w", "../../..".into())] {
            m.kids.push(M::new(k, V::Uol(to.to_string())));
        }
        top.kids.push(m);
    }
    crate::gen::image_bytes(&top, BMS, Rng::new(1))
}
/// a canvas of blocks of 256 pixels, more of them than 32 bits count
fn vast(n: usize) -> Vec<u8> {
    use crate::gen::{Canvas, M, V};
    let (w, h) = [(65536u32, 32768u32), (65536, 65536), (32768, 65552), (46352, 46352), (65536, 32784)][n % 5];
    let raw = vec![(n % 3) as u8; w as usize * h as usize / 128];
    let c = Canvas { w, h, fmt: 517, scale: 0, listed: false, level: 1, blocks: vec![], raw };
    let top = M::with("deep.img", V::Img, vec![M::new("c", V::Canvas(Box::new(c)))]);
    crate::gen::image_bytes(&top, BMS, Rng::new(1))
}
/// directories that list one directory twice, level by level, or lead back to the one above the one they are in
fn mesh(n: usize, back: bool, rng: &mut Rng) -> FileW {
    use crate::gen::{M, V};
    let s = crate::model::Shape { kids: 2, depth: 1, big: 20, side: 2, ..Default::default() };
    let mut top = M::with("a", V::Dir, vec![crate::model::image("x.img", &s, rng)]);
    for _ in 0..n {
        top = M::with("a", V::Dir, vec![M::new("b", V::Dir), top]);
    }
    top.name = "deep".into();
    let pack = make_pack(0, rng);
    let mut f = wrap_wz("", top, BMS, pack, rng);
    let at = |p: &str| f.lay.dirs.iter().find(|d| d.0 == p).map(|d| d.1).unwrap();
    let mut b = f.bytes.clone();
    for i in 0..n {
        let here = vec!["a"; i].join("/");
        let below = |k: &str| if here.is_empty() { k.to_string() } else { format!("{here}/{k}") };
        let to = if back { at(&vec!["a"; i.saturating_sub(1)].join("/")) } else { at(&below("a")) };
        let old = at(&below("b"));
        let r = f.lay.refs.iter().position(|r| r.1 == old).unwrap();
        f.lay.relink(&mut b, r, to);
    }
    f.bytes = b;
    f
}
/// an image of properties, canvases, raw data or convexes within each other
fn deep(n: usize, kind: i64) -> Vec<u8> {
    fn text(b: &mut Vec<u8>, s: &str) {
        b.push((-(s.len() as i8)) as u8);
        b.extend(s.bytes().enumerate().map(|(i, c)| c ^ (0xAAu8).wrapping_add(i as u8)));
    }
    let mut b = vec![0x73];
    text(&mut b, "Property");
    b.extend([0, 0]);
    let ty = ["Property", "Canvas", "RawData", "Shape2D#Convex2D"][kind as usize];
    let pre: &[u8] = [&[0u8, 0][..], &[0, 1, 0, 0], &[1, 1, 0, 0], &[]][kind as usize];
    // type, what precedes the list, the entry with its size field; what follows a canvas is left out
    let level = 2 + ty.len() + pre.len() + 9;
    for i in 0..n {
        if kind == 3 && i > 0 {
            b.push(1);
            b.push(0x73);
            text(&mut b, ty);
            continue;
        }
        b.push(1);
        b.push(0);
        text(&mut b, "a");
        b.push(9);
        let left = if kind == 3 { (n - 1) * (3 + ty.len()) + 2 + ty.len() + 1 } else { level * (n - i) - 8 };
        b.extend((left as u32).to_le_bytes());
        b.push(0x73);
        text(&mut b, ty);
        b.extend(pre);
    }
    b.push(0);
    b.resize(b.len() + 64, 0);
    b
}
pub fn run(p: &Plan) {
    let mut f = World::make(p).files.remove(0);
    if p.knobs.contains_key("deep") {
        let n = p.knob("deep") as usize;
        let kind = p.knob("deepkind");
        if kind == 5 || kind == 6 {
            f = mesh(4 + n % 60, kind == 6, &mut Rng::new(p.knob("wseed") as u64));
        } else {
            f.kind = Kind::Img;
            f.path = "deep.img".into();
            f.iv = BMS;
            f.bytes = match kind {
                4 => rings(1 + n % 7),
                7 => vast(n + p.knob("wseed") as usize % 5),
                _ => deep(n, kind),
            };
        }
        f.root = crate::gen::M::new("deep.img", crate::gen::V::Null);
        f.lay = crate::gen::Layout { len: f.bytes.len(), ..Default::default() };
        f.write();
    }
    let f = f;
    let mut rng = Rng::new(p.knob("wseed") as u64 ^ 0x77);
    let s = crate::model::Shape { kids: 4, depth: 2, big: 100, side: 4, ..Default::default() };
    let wit = make_file("", "W0", p.knob("wform") as u64, REGIONS[(p.seed % 3) as usize], &s, 1, 3, &mut rng);
    wit.write();
    let mut b = f.bytes.clone();
    for o in &p.faults {
        damage::apply(&f, &mut b, o, &wit.bytes);
    }
    let late = p.knob("late") != 0 && b.len() == f.bytes.len();
    let wroot = wit.open_arc();
    if !late {
        disk::put(&f.path, &b);
    }
    limits(f.bytes.len());
    if p.seed % 4 == 1 {
        // the same bytes, in memory
        let (f2, b) = (f.clone(), b.clone());
        on_thread("memory", move || in_memory(&f2, b));
    }
    let slot: Arc<Mutex<Option<WzNodeArc>>> = Default::default();
    {
        let (s2, f2) = (slot.clone(), f.clone());
        on_thread("open", move || match f2.open(None) {
            Ok(n) => *s2.lock().unwrap() = Some(n.into_lock()),
            Err(e) => {
                count(C_ERR);
                let _ = (e.to_string(), format!("{e:?}"));
            }
        });
    }
    let root = slot.lock().unwrap().take();
    if late {
        if let Some(r) = &root {
            if p.seed & 1 == 0 {
                let r = r.clone();
                on_thread("parse", move || drop(parse(&r)));
            }
        }
        for (i, x) in b.iter().enumerate() {
            if *x != f.bytes[i] {
                disk::poke(&f.path, i, &[*x]);
            }
        }
    }
    let ctx = Arc::new((root, f, wit, wroot));
    let c = ctx.clone();
    threads(p, move |_, o| match o.k.as_str() {
        "exercise" => {
            if let Some(r) = &c.0 {
                if o.b == 0 {
                    whole_guard(r, o.a, &c.1);
                }
                exercise(r, o.a, 3000);
                whole_guard(r, o.a, &c.1);
                unparse(r);
                exercise(r, o.a ^ 5, 300);
                if shallow(r) {
                    walk_node(r, true, &|n| use_node(n, 3));
                }
            }
        }
        _ => {
            must_match("others", "another file", &c.3, &c.2.root, FULL);
        }
    });
    // the other file is as it was, also when opened again
    must_match("others", "another file", &ctx.3, &ctx.2.root, FULL);
    let again = ctx.2.open_arc();
    must_match("others", "another file opened now", &again, &ctx.2.root, FULL);
    alloc::CAP.store(usize::MAX, Relaxed);
    alloc::LIVE_CAP.store(usize::MAX, Relaxed);
}
fn whole_guard(r: &WzNodeArc, a: u64, f: &FileW) {
    if shallow(r) {
        whole(r, a, f);
    }
    let _ = r.read().map(|g| g.try_as_file().is_some());
}
