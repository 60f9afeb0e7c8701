//! Concurrent decoding gives what decoding alone gives.
use crate::gen::*;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::sync::Arc;
use wz_reader::property::resolve_string_from_node;
use wz_reader::WzNodeArc;

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 3);
    p.set("big", *rng.pick(&[60, 300, 5000, 5000, 12000, 20000]));
    p.set("str", *rng.pick(&[200, 500, 700]));
    p.set("canvas", *rng.pick(&[60, 150, 300]));
    if p.knob("big") > 300 {
        p.set("kids", 1 + rng.below(4) as i64);
        p.set("width", 1 + rng.below(2) as i64);
        p.set("depth", 0);
        p.set("pdepth", rng.below(2) as i64);
    }
    p.set("lazy", rng.below(3) as i64);
    p.set("warm", *rng.pick(&[0, 0, 0, 1, 3]));
    // a file of one region with pieces of every size, so that growths of the key stream meet tiny uses of it
    if rng.chance(2, 5) {
        p.set("mix", 1 + rng.below(3) as i64);
        p.set("mixseed", (rng.next() >> 32) as i64);
        if rng.chance(1, 2) {
            p.set("files", 1);
        }
    }
    let nt = 2 + rng.below(3);
    for _ in 0..nt {
        let n = 1 + rng.below(8);
        p.threads.push(
            (0..n)
                .map(|_| {
                    let a = rng.next() >> 32;
                    match rng.below(20) {
                        0..=6 => op("enc", a, 0, 0),
                        7..=11 => op("any", a, 0, 0),
                        12 | 13 => op("big", rng.below(4), 0, 0),
                        14 | 15 => op("img", a, 0, 0),
                        16 => op("fresh", a, rng.next() >> 32, 0),
                        17 => op("str", a, 0, 0),
                        _ => op("all", a, 0, 0),
                    }
                })
                .collect(),
        );
    }
}

struct Leaf {
    node: WzNodeArc,
    m: M,
    path: String,
}
struct Ctx {
    w: World,
    leaves: Vec<Leaf>,
    enc: Vec<usize>,
    big: Vec<usize>,
    strs: Vec<usize>,
    lazy: Vec<(WzNodeArc, M)>,
}
fn weight(m: &M) -> usize {
    match &m.v {
        V::Str(s) => s.len(),
        V::Lua(s) => s.len(),
        V::Canvas(c) if c.listed => c.raw.len(),
        _ => 0,
    }
}
fn dec(l: &Leaf) {
    let s = snap(&l.node);
    if let Err(e) = check_value(&s.obj, &l.m) {
        violate("wrong-data", &format!("{}: {e}", l.path));
    }
}
fn mixed(p: &Plan) -> FileW {
    let mut rng = Rng::new(p.knob("mixseed") as u64);
    let iv = if p.knob("mix") == 1 { EMS } else { GMS };
    let size = |rng: &mut Rng| -> u64 {
        let x = *rng.pick(&[1u64, 10, 15, 16, 17, 60, 64, 100, 500, 4090, 4096, 4100, 8192, 12000, 16384, 20000, 33000, 70000]);
        if rng.chance(1, 3) {
            1 + rng.below(x)
        } else {
            x
        }
    };
    let mut img = M::new("aaaaaaaaaaaaaaaaaaaa.img", V::Img);
    for i in 0..2 + rng.below(4) {
        let n = size(&mut rng);
        let t = crate::model::text(if rng.chance(1, 2) { n } else { n / 2 + 1 }, &mut rng);
        img.kids.push(M::new(&format!("s{i}"), V::Str(t)));
    }
    for i in 0..1 + rng.below(3) {
        let (w, h) = if rng.chance(1, 3) { (1 + rng.below(160) as u32, 1 + rng.below(120) as u32) } else { (1 + rng.below(40) as u32, 1 + rng.below(12) as u32) };
        let raw = crate::model::bytes(w as u64 * h as u64 * 4, &mut rng);
        let blocks = (0..rng.below(6)).map(|_| size(&mut rng).max(2) as usize).collect();
        let c = Canvas { w, h, fmt: 2, scale: 0, listed: true, level: *rng.pick(&[0, 1]), blocks, raw };
        img.kids.push(M::new(&format!("c{i}"), V::Canvas(Box::new(c))));
    }
    let mut root = M::with("Mix", V::Dir, vec![img]);
    for i in 0..1 + rng.below(2) {
        let n = size(&mut rng);
        let t = crate::model::text(n, &mut rng);
        root.kids.push(M::with(&format!("l{i}.lua"), V::Img, vec![M::new("Script", V::Lua(t))]));
    }
    wrap_wz("", root, iv, Pack::Pkg1 { ver: 1 + rng.below(250) as i32, enc: true }, &mut rng)
}
pub fn run(p: &Plan) {
    let mut w = World::make(p);
    if p.knobs.get("mix").copied().unwrap_or(0) != 0 {
        let f = mixed(p);
        f.write();
        w.files.push(f);
    }
    let mut c = Ctx { leaves: vec![], enc: vec![], big: vec![], strs: vec![], lazy: vec![], w };
    let lazy = p.knob("lazy");
    let mut pin = vec![];
    let mut n_img = 0;
    for f in &c.w.files {
        let root = f.open_arc();
        // load everything but the images set aside, without decoding
        if f.kind == Kind::Img {
            must_match("load", &f.path, &root, &f.root, LOAD);
        } else {
            must_match("load", &f.path, &root, &f.root, LISTING);
        }
        for ip in f.image_paths() {
            let m = f.model_at(&ip);
            let node = if ip.is_empty() {
                root.clone()
            } else {
                match rd(&root, |g| g.at_path(&ip)) {
                    Some(n) => n,
                    None => violate("load", &format!("{}: image {ip} not found", f.path)),
                }
            };
            n_img += 1;
            if f.kind != Kind::Img && lazy > 0 && n_img % (lazy + 1) == 0 {
                c.lazy.push((node, m.clone()));
                continue;
            }
            let h = must_match("load", &format!("{}/{ip}", f.path), &node, m, LOAD);
            for (path, node) in h {
                let m = if path.is_empty() { m } else { m.at(&path).unwrap() };
                if let V::Uol(_) = m.v {
                    continue;
                }
                c.leaves.push(Leaf { node, m: M::new(&m.name, m.v.clone()), path: format!("{}:{}", f.path, join(&ip, &path)) });
            }
        }
        pin.push(root);
    }
    for (i, l) in c.leaves.iter().enumerate() {
        if weight(&l.m) > 0 || matches!(l.m.v, V::Lua(_) | V::Str(_)) {
            c.enc.push(i);
        }
        if matches!(l.m.v, V::Str(_)) {
            c.strs.push(i);
        }
    }
    c.big = c.enc.clone();
    c.big.sort_by_key(|i| usize::MAX - weight(&c.leaves[*i].m));
    c.big.truncate(4);
    for i in 0..p.knob("warm") as usize {
        if let Some(l) = c.leaves.get(i * 3) {
            dec(l);
        }
    }
    let pick = |v: &[usize], a: u64| if v.is_empty() { None } else { Some(v[(a % v.len() as u64) as usize]) };
    let c = Arc::new(c);
    threads(p, move |_, o| match o.k.as_str() {
        "enc" => {
            if let Some(i) = pick(&c.enc, o.a) {
                dec(&c.leaves[i])
            }
        }
        "big" => {
            if let Some(i) = pick(&c.big, o.a) {
                dec(&c.leaves[i])
            }
        }
        "any" => {
            if !c.leaves.is_empty() {
                dec(&c.leaves[(o.a % c.leaves.len() as u64) as usize])
            }
        }
        "str" => {
            if let Some(i) = pick(&c.strs, o.a) {
                let l = &c.leaves[i];
                let V::Str(want) = &l.m.v else { return };
                match resolve_string_from_node(&l.node) {
                    Ok(s) if s == *want => count(C_OKCHECK),
                    Ok(s) => violate("wrong-data", &format!("{}: string reads {s:?}, stored {want:?}", l.path)),
                    Err(e) => violate("wrong-data", &format!("{}: string: {e}", l.path)),
                }
            }
        }
        "img" => {
            if let Some(i) = pick(&(0..c.lazy.len()).collect::<Vec<_>>(), o.a) {
                let (n, m) = &c.lazy[i];
                must_match("wrong-data", &m.name, n, m, FULL);
            }
        }
        "all" => {
            let n = c.leaves.len().min(12);
            for i in 0..n {
                dec(&c.leaves[(o.a as usize + i) % c.leaves.len()])
            }
        }
        "fresh" => {
            let f = &c.w.files[(o.a % c.w.files.len() as u64) as usize];
            let root = f.open_arc();
            let ips = f.image_paths();
            let ip = &ips[(o.b % ips.len() as u64) as usize];
            if let Err(e) = parse(&root) {
                violate("wrong-data", &format!("{}: {e}", f.path));
            }
            let node = if ip.is_empty() { Some(root.clone()) } else { rd(&root, |g| g.at_path(ip)) };
            match node {
                Some(n) => {
                    must_match("wrong-data", &format!("fresh {}/{ip}", f.path), &n, f.model_at(ip), FULL);
                }
                None => violate("wrong-data", &format!("fresh {}: image {ip} not found", f.path)),
            }
        }
        _ => {}
    });
    drop(pin);
}
