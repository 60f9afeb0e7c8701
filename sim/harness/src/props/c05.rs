//! Looking a path up directly in an image gives what the parsed tree holds under it.
use crate::gen::*;
use crate::linked::{follow, image_of};
use crate::props::c13::under;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::sync::Arc;
use wz_reader::util::node_util::get_node_without_parse;
use wz_reader::util::walk_node;
use wz_reader::{WzNodeArc, WzNodeCast, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 1);
    p.set("big", *rng.pick(&[40, 300, 2000]));
    p.set("kids", 3 + rng.below(5) as i64);
    p.set("pdepth", 1 + rng.below(4) as i64);
    p.set("canvas", *rng.pick(&[60, 150, 300]));
    p.set("side", 4);
    p.set("hot", rng.below(3) as i64);
    let nt = *rng.pick(&[1, 1, 2, 3, 4]);
    for _ in 0..nt {
        let n = 3 + rng.below(if nt == 1 { 25 } else { 8 });
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(16) {
                        0 | 1 => "parse",
                        2 | 3 => "unparse",
                        4 if nt > 1 => "fwalk",
                        5..=7 => "image",
                        8 | 9 => "gone",
                        _ => "direct",
                    };
                    op(k, rng.next() >> 32, rng.next() >> 32, rng.below(100))
                })
                .collect(),
        );
    }
}
struct Ctx {
    f: FileW,
    root: WzNodeArc,
    images: Vec<String>,
    paths: Vec<String>,
    single: bool,
}
impl Ctx {
    fn nav(&self, p: &str) -> WzNodeArc {
        let mut n = self.root.clone();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            n = match rd(&n, |g| g.at(s)) {
                Some(k) => k,
                None => violate("lookup", &format!("{s:?} on the way to {p:?} is gone")),
            };
        }
        n
    }
}
/// the subtree under a node that was looked up; links in it may be followed or not
fn same(n: &WzNodeArc, m: &M, im: &M, at: &str) -> Result<(), String> {
    let s = snap(n);
    if let V::Uol(_) = m.v {
        // (it may lead to a link that leads nowhere)
        if kind_name(&s.obj) != "uol" || s.name != m.name || check_value(&s.obj, m).is_err() {
            return match crate::model::uol_target(im, at) {
                Some(t) => same(n, im.at(&t).unwrap(), im, &t),
                None => Err(format!("{at:?} is a link that leads nowhere but gives a {}", kind_name(&s.obj))),
            };
        }
    }
    if s.name != m.name {
        return Err(format!("{at:?} is named {:?}", s.name));
    }
    check_value(&s.obj, m).map_err(|e| format!("{at:?}: {e}"))?;
    let mut want: Vec<&str> = m.kids.iter().map(|k| k.name.as_str()).collect();
    want.sort();
    let got: Vec<&str> = s.kids.iter().map(|k| k.0.as_str()).collect();
    if want != got {
        return Err(format!("{at:?} has children {got:?} and not {want:?}"));
    }
    for k in &m.kids {
        same(s.kid(&k.name).unwrap(), k, im, &join(at, &k.name))?;
    }
    Ok(())
}
pub fn run(p: &Plan) {
    let f = World::make(p).files.remove(0);
    let root = f.open_arc();
    if f.kind != Kind::Img {
        let (r, f) = (root.clone(), f.clone());
        on_thread("list", move || {
            must_match("lookup", &f.path, &r, &f.root, LISTING);
        });
    }
    let images = f.image_paths();
    let paths = f.root.paths_where(|m| !matches!(m.v, V::Dir | V::Img));
    let c = Arc::new(Ctx { images, paths, root, single: p.threads.len() == 1, f });
    let hot = p.knob("hot") as u64;
    let c2 = c.clone();
    threads(p, move |_, o| {
        let c = &c2;
        let n = if o.c < 30 * hot { c.images.len().min(2) } else { c.images.len() } as u64;
        let ip = c.images[(o.a % n) as usize].clone();
        let im = c.f.model_at(&ip);
        let image = c.nav(&ip);
        match o.k.as_str() {
            "parse" => {
                if let Err(e) = parse(&image) {
                    violate("lookup", &format!("parsing {ip:?}: {e}"));
                }
            }
            "unparse" => unparse(&image),
            "fwalk" => walk_node(&image, true, &|_| {}),
            _ => {
                // a path inside the image, as it is or not quite
                let inner: Vec<&String> = c.paths.iter().filter(|x| ip.is_empty() || x.starts_with(&format!("{ip}/"))).collect();
                if inner.is_empty() {
                    return;
                }
                let x = inner[(o.b % inner.len() as u64) as usize];
                let mut path = if ip.is_empty() { x.clone() } else { x[ip.len() + 1..].to_string() };
                if o.k == "gone" {
                    let mut v: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
                    let i = (o.a >> 8) as usize % v.len();
                    match (o.a >> 20) % 12 {
                        0 => v.push("x".into()),
                        1 => v[i] = "nothing".into(),
                        2 => v[i].push('_'),
                        3 => drop(v.remove(i)),
                        4 => v.insert(i, v[i].clone()),
                        5 => v[i] = format!("0{}", v[i]),
                        6 => v[i] = format!("+{}", v[i]),
                        7 => v.push("0".into()),
                        8 => v.push(String::new()),
                        9 => v.insert(i, "gone".into()),
                        10 => v.insert(i, "..".into()),
                        _ => v.push(v[i].clone()),
                    }
                    path = v.join("/");
                }
                let full = under(&ip, &path);
                let was = rd(&image, |g| parsed_flag(&g.object_type)).unwrap_or(false);
                count(C_LOOKUP);
                let (how, got) = if o.k == "image" || c.f.kind == Kind::Img || o.c % 2 == 0 {
                    // the image as a value of its own
                    let i = rd(&image, |g| match &g.object_type {
                        WzObjectType::MsImage(m) => m.to_wz_image(),
                        _ => g.try_as_image().unwrap().clone(),
                    });
                    ("in the image", i.at_path(&path).ok())
                } else {
                    ("from the root", get_node_without_parse(&c.root, &full))
                };
                let exact = c.f.root.at(&full);
                let led = follow(&c.f.root, "", &full);
                let what = format!("{path:?} in {ip:?} {how}");
                // a path through a link is there in the parsed tree only
                let mut allow = vec![];
                let from_tree = how == "from the root" && (was || !c.single);
                let from_file = how == "in the image" || !was || !c.single;
                if from_file && exact.is_some() && !path.is_empty() {
                    allow.push(full.clone());
                }
                if let (true, Some(t)) = (from_tree, &led) {
                    allow.push(t.clone());
                }
                let may_miss = path.is_empty() || from_file && exact.is_none() || from_tree && led.is_none();
                match got {
                    None if may_miss => count(C_OKCHECK),
                    None => violate("lookup", &format!("{what} is not found")),
                    Some(n) => {
                        if allow.is_empty() {
                            violate("lookup", &format!("{what} does not exist, found {:?} ({})", snap(&n).name, kind_name(&snap(&n).obj)));
                        }
                        let r: Vec<_> = allow
                            .iter()
                            .map(|a| {
                                let inn = if ip.is_empty() { a.as_str() } else { &a[ip.len() + 1..] };
                                same(&n, c.f.root.at(a).unwrap(), im, inn)
                            })
                            .collect();
                        if r.iter().all(|x| x.is_err()) {
                            violate("lookup", &format!("{what}: {}", r[0].as_ref().unwrap_err()));
                        }
                        count(C_OKCHECK);
                    }
                }
            }
        }
        let _ = image_of;
    });
    let f = &c.f;
    must_match("final-tree", &f.path, &c.root, &f.root, FULL);
}
