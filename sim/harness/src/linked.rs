//! An archive whose canvases refer to one another, and what every reference leads to.
use crate::gen::*;
use crate::model::{self, uol_target};
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;

pub struct Linked {
    pub f: FileW,
    /// the root is what outlinks start from
    pub base: bool,
    pub images: Vec<String>,
    pub canvases: Vec<String>,
    /// string nodes named _inlink or _outlink
    pub links: Vec<String>,
    pub uols: Vec<String>,
    /// UOLs that lead out of their image
    pub xuols: Vec<(String, String)>,
}
pub fn knobs(p: &mut Plan, rng: &mut Rng) {
    p.set("lseed", rng.below(1 << 40) as i64);
    p.set("based", (!rng.chance(1, 12)) as i64);
    p.set("ldepth", rng.below(3) as i64);
    p.set("lwidth", 2 + rng.below(3) as i64);
    p.set("lkids", 2 + rng.below(4) as i64);
    p.set("lform", rng.below(3) as i64);
    p.set("lregion", rng.below(3) as i64);
    p.set("linkn", 2 + rng.below(10) as i64);
}
pub fn image_of(root: &M, path: &str) -> Option<String> {
    let mut p = String::new();
    for s in path.split('/') {
        p = join(&p, s);
        if root.at(&p)?.v == V::Img {
            return Some(p);
        }
    }
    None
}
/// follow names; UOLs that stay in their image are what they lead to
pub fn follow(root: &M, start: &str, path: &str) -> Option<String> {
    let mut cur = start.to_string();
    for s in path.split('/') {
        let next = join(&cur, s);
        let m = root.at(&next)?;
        cur = next;
        if matches!(m.v, V::Uol(_)) {
            let ip = image_of(root, &cur)?;
            if let Some(t) = uol_target(root.at(&ip)?, &cur[ip.len() + 1..]) {
                cur = join(&ip, &t);
            }
        }
    }
    Some(cur)
}
impl Linked {
    pub fn make(p: &Plan) -> Linked {
        let mut rng = Rng::new(Rng::new(p.knob("lseed") as u64).next());
        let rng = &mut rng;
        let base = p.knob("based") != 0;
        let s = model::Shape { kids: p.knob("lkids") as u64, depth: 2, big: 40, side: 4, canvas: 400, sound: 40, str_: 100, good_fmt: true, ..Default::default() };
        let mut root = model::dir(if base { "Base" } else { "Other" }, &s, p.knob("ldepth") as u64, p.knob("lwidth") as u64, rng);
        for i in 0..2 {
            let mut im = model::image(&format!("more{i}.img"), &s, rng);
            im.kids.retain(|k| !matches!(k.v, V::Text(_) | V::Lua(_)));
            for j in 0..1 + rng.below(3) {
                im.kids.push(M::new(&format!("canvas{j}"), model::canvas(&s, rng)));
            }
            root.kids.push(im);
        }
        model::fit_region(&mut root, REGIONS[p.knob("lregion") as usize % 3]);
        let images: Vec<String> = root.paths_where(|m| m.v == V::Img);
        let canvases: Vec<String> = root.paths_where(|m| matches!(m.v, V::Canvas(_)));
        for _ in 0..p.knob("linkn") {
            let c = rng.pick(&canvases).clone();
            let ip = image_of(&root, &c).unwrap();
            let same: Vec<&String> = canvases.iter().filter(|x| x.starts_with(&format!("{ip}/"))).collect();
            let all: Vec<String> = root.paths_where(|m| !matches!(m.v, V::Dir | V::Img));
            let (nm, mut link) = if rng.chance(1, 2) {
                let t = if rng.chance(1, 8) {
                    let x: Vec<&String> = all.iter().filter(|x| x.starts_with(&format!("{ip}/"))).collect();
                    rng.pick(&x).to_string()
                } else {
                    rng.pick(&same).to_string()
                };
                ("_inlink", t[ip.len() + 1..].to_string())
            } else {
                ("_outlink", if rng.chance(1, 8) { rng.pick(&all).clone() } else { rng.pick(&canvases).clone() })
            };
            match rng.below(12) {
                0 => link += "/gone",
                1 => link = format!("no/{link}"),
                2 => link = String::new(),
                _ => {}
            }
            let m = root.at_mut(&c).unwrap();
            if m.kid(nm).is_none() {
                m.kids.push(M::new(nm, V::Str(link)));
            }
        }
        // UOLs out of the image, resolved only on request; they hang at the image itself and lead to values below others
        let mut xuols = vec![];
        for i in 0..rng.below(4) {
            let ip = rng.pick(&images).clone();
            let m = root.at(&ip).unwrap();
            if m.kids.iter().any(|k| matches!(k.v, V::Text(_) | V::Lua(_))) {
                continue;
            }
            let all: Vec<String> = root.paths_where(|m| !matches!(m.v, V::Dir | V::Img | V::Uol(_)) && !has_uol(m)).into_iter().filter(|t| image_of(&root, t).as_deref() != Some(&ip)).collect();
            if all.is_empty() {
                continue;
            }
            let t = rng.pick(&all).clone();
            let at = format!("{ip}/xuol{i}");
            // names above are looked up from the directory of the image
            let link = if rng.chance(1, 8) { format!("{}/gone", model::rel(&at, &t)) } else { model::rel(&at, &t) };
            root.at_mut(&ip).unwrap().kids.push(M::new(&format!("xuol{i}"), V::Uol(link)));
            xuols.push((at, t));
        }
        let iv = REGIONS[p.knob("lregion") as usize % 3];
        let pack = make_pack(p.knob("lform") as u64, rng);
        let f = wrap_wz("", root, iv, pack, rng);
        let links = f.root.paths_where(|m| matches!(m.v, V::Str(_)) && (m.name == "_inlink" || m.name == "_outlink"));
        let uols = f.root.paths_where(|m| matches!(m.v, V::Uol(_)));
        let canvases = f.root.paths_where(|m| matches!(m.v, V::Canvas(_)));
        let images = f.root.paths_where(|m| m.v == V::Img);
        // the first image may have been renamed to make the region recognisable
        xuols.retain(|(a, t)| f.root.at(a).is_some() && f.root.at(t).is_some());
        f.write();
        Linked { f, base, images, canvases, links, uols, xuols }
    }
    pub fn inlink(&self, at: &str, link: &str) -> Option<String> {
        follow(&self.f.root, &image_of(&self.f.root, at)?, link)
    }
    pub fn outlink(&self, link: &str) -> Option<String> {
        if !self.base {
            return None;
        }
        follow(&self.f.root, "", link)
    }
    /// what extraction through the links of a canvas goes through; None at the end: in circles
    pub fn chain(&self, at: &str) -> (Vec<String>, bool) {
        let mut v = vec![at.to_string()];
        loop {
            let cur = v.last().unwrap().clone();
            let m = self.f.root.at(&cur).unwrap();
            if !matches!(m.v, V::Canvas(_)) {
                return (v, true);
            }
            let s = |n: &str| match m.kid(n) {
                Some(M { v: V::Str(s), .. }) => Some(s.clone()),
                _ => None,
            };
            let t = s("_inlink").and_then(|l| self.inlink(&cur, &l)).or_else(|| s("_outlink").and_then(|l| self.outlink(&l)));
            match t {
                None => return (v, true),
                Some(t) if v.contains(&t) => return (v, false),
                Some(t) => v.push(t),
            }
        }
    }
    /// everything the links of `at` lead to when any of them may be missing for a while
    fn reach(&self, at: &str) -> Vec<String> {
        let mut v = vec![at.to_string()];
        let mut i = 0;
        while i < v.len() {
            let m = self.f.root.at(&v[i]).unwrap();
            for n in ["_inlink", "_outlink"] {
                if let Some(M { v: V::Str(s), .. }) = m.kid(n) {
                    let t = if n == "_inlink" { self.inlink(&v[i], s) } else { self.outlink(s) };
                    if let Some(t) = t {
                        if !v.contains(&t) {
                            v.push(t);
                        }
                    }
                }
            }
            i += 1;
        }
        v
    }
    /// does the image given fit what the links of `at` say? `any`: other threads may have unloaded targets
    pub fn check_image(&self, at: &str, got: Result<image::DynamicImage, wz_reader::property::WzPngParseError>, any: bool) -> Result<(), String> {
        let (chain, ends) = self.chain(at);
        let canvas = |p: &str| match &self.f.root.at(p).unwrap().v {
            V::Canvas(c) => Some(c),
            _ => None,
        };
        let err = match &got {
            Ok(_) => None,
            Err(e) => Some(format!("{e} / {e:?}")),
        };
        if any {
            if err.is_some() {
                return Ok(());
            }
            let img = got.unwrap();
            let chain = self.reach(at);
            if chain.iter().filter_map(|p| canvas(p)).any(|c| check_canvas(Ok(img.clone()), c).is_ok()) {
                return Ok(());
            }
            return Err(format!("the image is none of those its links lead through: {chain:?}"));
        }
        let end = chain.last().unwrap();
        if !ends {
            return match err {
                Some(_) => Ok(()),
                None => Err(format!("links that lead in circles give an image: {chain:?}")),
            };
        }
        match canvas(end) {
            None => match err {
                Some(_) => Ok(()),
                None => Err(format!("a link to something that is no canvas gives an image: {chain:?}")),
            },
            Some(c) => {
                // a link without a target may be refused instead of ignored
                let m = self.f.root.at(end).unwrap();
                if err.is_some() && (m.kid("_inlink").is_some() || m.kid("_outlink").is_some()) {
                    return Ok(());
                }
                check_canvas(got, c).map_err(|e| format!("through {chain:?}: {e}"))
            }
        }
    }
}
fn has_uol(m: &M) -> bool {
    matches!(m.v, V::Uol(_)) || m.kids.iter().any(has_uol)
}
