//! Parallel decoding gives the pixels the stored data defines.
use crate::gen::*;
use crate::model;
use crate::pix;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::sync::{Arc, Mutex};
use wz_reader::property::{get_image, WzSubProperty};
use wz_reader::{WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    p.set("form", *rng.pick(&[0, 1, 2, 3, 4, 5, 6]));
    p.set("region", rng.below(4) as i64);
    p.set("seed", (rng.next() >> 20) as i64);
    p.set("canvases", *rng.pick(&[1, 1, 2, 3, 5]));
    // how many pixels, at most
    p.set("pixels", *rng.pick(&[64, 400, 2000, 2000, 10000, 10000, 60000, 300000]));
    p.sim.workers = *rng.pick(&[1, 2, 2, 3, 4, 5, 8, 16, 64]);
    p.sim.steal = *rng.pick(&[0, 30, 100, 300, 600, 1000]);
    p.sim.steal_thread = *rng.pick(&[0, 50, 300, 1000]);
    for _ in 0..*rng.pick(&[1, 1, 2, 3]) {
        let n = 1 + rng.below(4);
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(10) {
                        0..=3 => "image",
                        4 | 5 => "png",
                        6 | 7 => "join",
                        _ => *rng.pick(&["parse", "unparse", "copy", "all"]),
                    };
                    op(k, rng.next() >> 32, rng.next() >> 32, rng.below(100))
                })
                .collect(),
        );
    }
}
/// any shape with at most `max` pixels: squares, lines, sizes next to multiples of four and of powers of two
fn dims(fmt: u32, max: u64, rng: &mut Rng) -> (u32, u32) {
    let max = match rng.below(3) {
        0 => max,
        1 => 1 + rng.below(max),
        _ => 1 + rng.below(max.min(300)),
    };
    let side = (max as f64).sqrt() as u64;
    let mut w = match rng.below(6) {
        0 => 1 + rng.below(8),
        1 => max.min(4100) - rng.below(4).min(max.min(4100) - 1),
        2 => *rng.pick(&[3, 4, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        _ => 1 + rng.below(2 * side),
    }
    .clamp(1, max);
    let mut h = (max / w).max(1);
    if rng.chance(1, 2) {
        h = 1 + rng.below(h);
    }
    if rng.chance(1, 2) && h <= 4100 {
        std::mem::swap(&mut w, &mut h);
    }
    if fmt == 517 {
        (w, h) = (16 * (1 + w / 16), 16 * (1 + h / 16));
    }
    (w as u32, h as u32)
}
fn draw(p: &Plan, rng: &mut Rng) -> V {
    // most of the work is in the formats decoded in parallel
    let fmt = if rng.chance(1, 2) { *rng.pick(&[1, 2, 1026, 3, 2050, 2562]) } else { *rng.pick(&pix::FORMATS) };
    let (w, h) = dims(fmt, p.knob("pixels") as u64, rng);
    let mut raw = pix::raw(fmt, w, h, rng);
    // more data than the image needs
    if rng.chance(1, 5) {
        let n = 1 + rng.below(40);
        raw.extend(model::bytes(n, rng));
    }
    let blocks = if rng.chance(1, 2) { vec![4096; raw.len() / 4000 + 1] } else { vec![1 + rng.below(9000) as usize] };
    let big = blocks.iter().copied().chain([1 << 30]).collect();
    V::Canvas(Box::new(Canvas { w, h, fmt, scale: 0, listed: rng.chance(1, 3), level: *rng.pick(&[0, 0, 1]), blocks: big, raw }))
}
struct Item {
    path: String,
    node: WzNodeArc,
    image: WzNodeArc,
    m: Canvas,
}
fn judge(it: &Item, how: &str, got: Result<image::DynamicImage, wz_reader::property::WzPngParseError>) {
    if let Err(e) = check_canvas(got, &it.m) {
        violate("wrong-pixels", &format!("{:?} ({how}): {e}", it.path));
    }
    count(C_DECODE);
    count(C_OKCHECK);
}
fn png(it: &Item, hold: bool) -> Result<image::DynamicImage, wz_reader::property::WzPngParseError> {
    fn is(o: &WzObjectType) -> &wz_reader::property::WzPng {
        match o {
            WzObjectType::Property(WzSubProperty::PNG(p)) => p,
            _ => violate("wrong-pixels", "a canvas is no canvas any more"),
        }
    }
    if hold {
        rd(&it.node, |g| is(&g.object_type).extract_png())
    } else {
        let o = snap(&it.node).obj;
        is(&o).extract_png()
    }
}
pub fn run(p: &Plan) {
    let mut rng = Rng::new(p.knob("seed") as u64);
    let (form, iv) = (p.knob("form"), REGIONS[p.knob("region") as usize]);
    let one = form == 3 || rng.chance(1, 2);
    let mut imgs: Vec<M> = vec![];
    for i in 0..p.knob("canvases") {
        if i == 0 || !one {
            imgs.push(M::with(&format!("i{i}.img"), V::Img, vec![M::new("n", V::Int(i as i32))]));
        }
        let c = draw(p, &mut rng);
        imgs.last_mut().unwrap().kids.push(M::new(&format!("c{i}"), c));
    }
    let f = match form {
        3 => wrap_img("", imgs.remove(0), iv, &mut rng),
        4 | 5 => wrap_ms("", M::with("Pix", V::Dir, imgs), form == 5, &mut rng),
        _ => {
            let iv = if iv == CUSTOM { GMS } else { iv };
            wrap_wz("", M::with("Pix", V::Dir, imgs), iv, make_pack(form as u64, &mut rng), &mut rng)
        }
    };
    f.write();
    let root = f.open_arc();
    if f.kind != Kind::Img {
        must_match("load", &f.path, &root, &f.root, LISTING);
    }
    let mut items: Vec<Arc<Item>> = vec![];
    for ip in f.image_paths() {
        let image = if ip.is_empty() { root.clone() } else { rd(&root, |g| g.at_path(&ip)).unwrap_or_else(|| violate("load", "the image is not there")) };
        let m = f.model_at(&ip);
        for (path, node) in must_match("load", &f.path, &image, m, LOAD) {
            let m = if path.is_empty() { m } else { m.at(&path).unwrap() };
            if let V::Canvas(c) = &m.v {
                items.push(Arc::new(Item { path: join(&ip, &path), node, image: image.clone(), m: (**c).clone() }));
            }
        }
    }
    if items.is_empty() {
        return;
    }
    let keep: Mutex<Vec<image::DynamicImage>> = Mutex::new(vec![]);
    threads(p, move |_, o| {
        let it = items[o.a as usize % items.len()].clone();
        match o.k.as_str() {
            "image" => judge(&it, "get_image", get_image(&it.node)),
            "png" => judge(&it, "extract_png", png(&it, o.c % 3 == 0)),
            // the client itself works in the pool
            "join" => {
                let other = items[o.b as usize % items.len()].clone();
                rayon_core::join(|| judge(&it, "get_image in the pool", get_image(&it.node)), || judge(&other, "get_image in the pool", get_image(&other.node)));
            }
            "all" => {
                fn every(v: &[Arc<Item>]) {
                    match v {
                        [] => {}
                        [x] => judge(x, "extract_png in the pool", png(x, false)),
                        _ => {
                            let (a, b) = v.split_at(v.len() / 2);
                            rayon_core::join(|| every(a), || every(b));
                        }
                    }
                }
                every(&items);
            }
            "parse" => {
                if let Err(e) = parse(&it.image) {
                    violate("load", &format!("the image does not load: {e}"));
                }
            }
            "unparse" => {
                count(C_UNPARSE);
                wr(&it.image, |g| g.unparse())
            }
            // two results of the same canvas are equal, and stay so while others decode
            _ => {
                let a = png(&it, false);
                judge(&it, "extract_png", png(&it, false));
                if let Ok(a) = a {
                    judge(&it, "extract_png, looked at later", Ok(a.clone()));
                    keep.lock().unwrap_or_else(|e| e.into_inner()).push(a);
                }
            }
        }
    });
}
