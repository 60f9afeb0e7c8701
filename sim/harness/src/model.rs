//! Seeded random contents.
use crate::gen::*;
use crate::pix;
use simstd::sim::Rng;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Shape {
    /// most children of one node, most levels of properties
    pub kids: u64,
    pub depth: u64,
    /// largest string, script and payload
    pub big: u64,
    /// largest canvas side
    pub side: u64,
    pub links: bool,
    /// per mille of canvases, sounds, scripts among the values
    pub canvas: u64,
    pub sound: u64,
    pub str_: u64,
    pub long_names: bool,
    /// canvases only in supported formats
    pub good_fmt: bool,
    /// children may have the names the prints use themselves
    pub own_names: bool,
    /// a client without a version check has a multiple of 256 entries at its root
    pub crowd: bool,
}
impl Default for Shape {
    fn default() -> Self {
        Shape { kids: 5, depth: 3, big: 300, side: 12, links: true, canvas: 120, sound: 80, str_: 200, long_names: false, good_fmt: false, own_names: false, crowd: false }
    }
}

const ALPHA: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_- ()";
pub fn ascii(n: u64, rng: &mut Rng) -> String {
    (0..n).map(|_| ALPHA[rng.below(ALPHA.len() as u64) as usize] as char).collect()
}
pub fn text(n: u64, rng: &mut Rng) -> String {
    if n > 0 && rng.chance(1, 3) {
        (0..n)
            .map(|_| match rng.below(4) {
                0 => char::from_u32(0xAC00 + rng.below(11000) as u32).unwrap(),
                1 => char::from_u32(0x4E00 + rng.below(20000) as u32).unwrap(),
                2 if rng.chance(1, 4) => char::from_u32(0x1F300 + rng.below(256) as u32).unwrap(),
                _ => ALPHA[rng.below(26) as usize] as char,
            })
            .collect()
    } else {
        ascii(n, rng)
    }
}
pub fn name(rng: &mut Rng, long: bool) -> String {
    let n = if long && rng.chance(1, 12) { 1 + rng.below(300) } else { 1 + rng.below(9) };
    if rng.chance(1, 10) {
        return ["origin", "z", "delay", "source", "head", "map", "info"][rng.below(7) as usize].to_string();
    }
    if rng.chance(1, 5) {
        return rng.below(20).to_string();
    }
    let t = if rng.chance(1, 8) { text(n.min(12), rng) } else { ascii(n, rng) };
    t.replace(' ', "_")
}
fn size(big: u64, rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => rng.below(40),
        7 | 8 => rng.below(big / 4 + 1),
        _ => rng.below(big + 1),
    }
}
pub fn bytes(n: u64, rng: &mut Rng) -> Vec<u8> {
    let mut r = rng.fork();
    (0..n).map(|_| r.next() as u8).collect()
}

pub fn canvas(s: &Shape, rng: &mut Rng) -> V {
    let mut fmt = *rng.pick(&pix::FORMATS);
    if !s.good_fmt && rng.chance(1, 25) {
        fmt = *rng.pick(&pix::UNSUPPORTED);
    }
    let (mut w, mut h) = (1 + rng.below(s.side) as u32, 1 + rng.below(s.side) as u32);
    if fmt == 517 {
        w = 16 * (1 + w / 16);
        h = 16 * (1 + h / 16);
    }
    let raw = pix::raw(fmt, w, h, rng);
    let scale = if rng.chance(1, 6) && fmt > 10 { rng.below(3) as u8 } else { 0 };
    let nb = rng.below(5);
    let mut blocks: Vec<usize> = (0..nb)
        .map(|_| match rng.below(4) {
            0 => 2 + rng.below(8) as usize,
            1 => 4080 + rng.below(40) as usize,
            _ => 2 + rng.below(s.big + 1) as usize,
        })
        .collect();
    blocks.push(1 << 30);
    V::Canvas(Box::new(Canvas { w, h, fmt, scale, listed: rng.chance(1, 3), level: *rng.pick(&[0, 1, 6, 9]), blocks, raw }))
}
pub fn sound(s: &Shape, rng: &mut Rng) -> V {
    let data = bytes(size(s.big, rng), rng);
    let mut dur = rng.below(100000) as i32;
    let mut header = match rng.below(4) {
        0 => bytes(0x52 + rng.below(4), rng),
        1 => bytes(rng.below(0x60), rng),
        _ => bytes(0x46, rng),
    };
    if header.len() == 0x46 && rng.chance(1, 3) {
        dur = 1000;
        header[0x38..0x3c].copy_from_slice(&(data.len() as u32).to_le_bytes());
    }
    V::Sound(Box::new(Snd { dur, header, data }))
}

fn scalar(s: &Shape, rng: &mut Rng) -> V {
    if rng.chance(s.str_, 1000) {
        let n = size(s.big, rng);
        return V::Str(text(n, rng));
    }
    match rng.below(9) {
        0 => V::Null,
        1 => V::Short(rng.next() as i16),
        2 => V::Int(if rng.chance(1, 2) { rng.range(-130, 130) as i32 } else { rng.next() as i32 }),
        3 => V::Long(if rng.chance(1, 2) { rng.range(-130, 130) } else { rng.next() as i64 }),
        4 => V::Float(match rng.below(3) {
            0 => rng.below(128) as f32,
            1 => -(rng.below(1000) as f32) / 8.0,
            _ => f32::from_bits((rng.next() as u32) & 0xBFFF_FFFF),
        }),
        5 => V::Double(rng.range(-1 << 40, 1 << 40) as f64 / 1024.0),
        6 => V::Vec2(rng.range(-200, 200) as i32, rng.next() as i32),
        7 => V::Str(text(rng.below(12), rng)),
        _ => V::Int(rng.below(1000) as i32),
    }
}

fn prop_kids(s: &Shape, depth: u64, rng: &mut Rng) -> Vec<M> {
    let n = rng.below(s.kids + 1);
    let mut used = HashSet::new();
    let mut out = vec![];
    for _ in 0..n {
        let mut nm = name(rng, s.long_names);
        if s.own_names && rng.chance(1, 3) {
            nm = rng.pick(&["width", "height", "duration", "sound_type", "name", "type", "data", "children", "x"]).to_string();
        }
        if !used.insert(nm.clone()) {
            continue;
        }
        out.push(prop(&nm, s, depth, rng));
    }
    out
}
pub fn prop(nm: &str, s: &Shape, depth: u64, rng: &mut Rng) -> M {
    let r = rng.below(1000);
    if r < s.canvas {
        let k = if depth > 0 && rng.chance(1, 2) { prop_kids(s, depth - 1, rng) } else { vec![] };
        return M::with(nm, canvas(s, rng), k);
    }
    if r < s.canvas + s.sound {
        return match rng.below(5) {
            0 => {
                let k = if depth > 0 && rng.chance(1, 3) { prop_kids(s, depth - 1, rng) } else { vec![] };
                let n = size(s.big, rng);
                M::with(nm, V::Raw(bytes(n, rng)), k)
            }
            1 => {
                let n = size(s.big, rng);
                M::new(nm, V::Video(bytes(n, rng)))
            }
            _ => M::new(nm, sound(s, rng)),
        };
    }
    if depth > 0 && rng.chance(2, 5) {
        if rng.chance(1, 8) {
            let n = rng.below(s.kids + 1);
            let kids = (0..n)
                .map(|i| {
                    if rng.chance(1, 8) {
                        let k = prop_kids(s, depth - 1, rng);
                        M::with(&i.to_string(), V::Prop, k)
                    } else {
                        M::new(&i.to_string(), V::Vec2(rng.next() as i32, rng.range(-100, 100) as i32))
                    }
                })
                .collect();
            return M::with(nm, V::Convex, kids);
        }
        return M::with(nm, V::Prop, prop_kids(s, depth - 1, rng));
    }
    M::new(nm, scalar(s, rng))
}

/// relative path from the parent of `from` to `to`
pub fn rel(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let base = &f[..f.len() - 1];
    let mut c = 0;
    while c < base.len() && c < t.len() - 1 && base[c] == t[c] {
        c += 1;
    }
    let mut o: Vec<&str> = vec![".."; base.len() - c];
    o.extend(&t[c..]);
    o.join("/")
}

fn is_under(p: &str, a: &str) -> bool {
    p == a || (p.starts_with(a) && p.as_bytes().get(a.len()) == Some(&b'/'))
}

/// add UOLs to an image: each leads to an existing node that is no UOL, contains no UOL and does not contain it
fn add_uols(img: &mut M, n: u64, rng: &mut Rng) {
    let targets = img.paths_where(|_| true);
    let homes: Vec<String> = {
        let mut h = vec![String::new()];
        h.extend(img.paths_where(|m| matches!(m.v, V::Prop | V::Canvas(_))));
        h
    };
    if targets.is_empty() {
        return;
    }
    for i in 0..n {
        let home = rng.pick(&homes).clone();
        let nm = format!("uol{i}");
        let at = if home.is_empty() { nm.clone() } else { format!("{home}/{nm}") };
        let t = rng.pick(&targets).clone();
        let link = match rng.below(8) {
            0 => format!("{}/nowhere", rel(&at, &t)),
            1 => "../".repeat(20) + "x",
            _ => rel(&at, &t),
        };
        // a subtree that received an UOL is no target any more, a home must not lie in a target taken before
        let has = img.at(&t).map(|m| m.v.clone()).is_some();
        if !has || is_under(&at, &t) || contains_uol(img.at(&t).unwrap()) || target_taken(img, &home) {
            continue;
        }
        // sometimes through or to another UOL, wherever that is
        let mut g = rng.clone();
        let mut link = link;
        if g.chance(1, 2) {
            let us = img.paths_where(|m| matches!(m.v, V::Uol(_)));
            if !us.is_empty() {
                let u = g.pick(&us).clone();
                match uol_target(img, &u) {
                    Some(t) => {
                        let below = img.at(&t).unwrap().paths();
                        let (alias, real) = if below.is_empty() || g.chance(1, 2) {
                            (u, t)
                        } else {
                            let b = g.pick(&below);
                            (format!("{u}/{b}"), format!("{t}/{b}"))
                        };
                        if !is_under(&at, &real) && !contains_uol(img.at(&real).unwrap()) {
                            link = rel(&at, &alias);
                        }
                    }
                    // to one that leads nowhere
                    None if g.chance(1, 4) => link = rel(&at, &u),
                    None => {}
                }
            }
        }
        let parent = if home.is_empty() { &mut *img } else { img.at_mut(&home).unwrap() };
        if parent.kid(&nm).is_some() || (parent.kids.is_empty() && matches!(parent.v, V::Canvas(_)) && false) {
            continue;
        }
        let pos = rng.below(parent.kids.len() as u64 + 1) as usize;
        parent.kids.insert(pos, M::new(&nm, V::Uol(link)));
    }
}
fn contains_uol(m: &M) -> bool {
    matches!(m.v, V::Uol(_)) || m.kids.iter().any(contains_uol)
}
/// is `home` inside something an existing UOL leads to?
fn target_taken(img: &M, home: &str) -> bool {
    for u in img.paths_where(|m| matches!(m.v, V::Uol(_))) {
        if let Some(t) = uol_target(img, &u) {
            if !home.is_empty() && (is_under(home, &t)) {
                return true;
            }
        }
    }
    false
}
/// path (inside the image) an UOL leads to, through others where its path has them
pub fn uol_target(img: &M, at: &str) -> Option<String> {
    uol_target_(img, at, &mut vec![])
}
fn uol_target_(img: &M, at: &str, on: &mut Vec<String>) -> Option<String> {
    let V::Uol(l) = &img.at(at)?.v else { return None };
    if on.iter().any(|x| x == at) {
        return None;
    }
    on.push(at.to_string());
    let mut cur: Vec<String> = at.split('/').map(|s| s.to_string()).collect();
    cur.pop();
    for s in l.split('/') {
        if s == ".." {
            cur.pop()?;
            continue;
        }
        cur.push(s.to_string());
        let p = cur.join("/");
        if let V::Uol(_) = img.at(&p)?.v {
            let n = on.len();
            let t = uol_target_(img, &p, on);
            on.truncate(n);
            if let Some(t) = t {
                cur = t.split('/').map(|s| s.to_string()).collect();
            }
        }
    }
    (!cur.is_empty()).then(|| cur.join("/"))
}

pub fn image(nm: &str, s: &Shape, rng: &mut Rng) -> M {
    let mut m = M::new(nm, V::Img);
    if nm.ends_with(".lua") {
        let n = size(s.big, rng);
        m.kids.push(M::new("Script", V::Lua(text(n, rng))));
        return m;
    }
    if nm.ends_with(".txt") || rng.chance(1, 30) {
        let n = size(s.big, rng);
        let mut d = bytes(n, rng);
        if nm.ends_with(".txt") {
            // the kind byte of an image must be one the reader knows
            d.insert(0, b'#');
        }
        m.kids.push(M::new("text.txt", V::Text(d)));
        return m;
    }
    m.kids = prop_kids(s, s.depth, rng);
    if m.kids.is_empty() {
        m.kids.push(M::new("only", V::Int(5)));
    }
    if s.links {
        let n = rng.below(4);
        add_uols(&mut m, n, rng);
    }
    m
}

pub fn dir(nm: &str, s: &Shape, depth: u64, width: u64, rng: &mut Rng) -> M {
    let mut d = M::new(nm, V::Dir);
    let n = 1 + rng.below(width);
    for i in 0..n {
        if depth > 0 && rng.chance(2, 5) {
            let nm = format!("{}{}", name(rng, false).replace(".img", ""), i);
            d.kids.push(dir(&nm, s, depth - 1, width, rng));
        } else {
            let ext = match rng.below(20) {
                0 => "lua",
                1 => "txt",
                _ => "img",
            };
            let nm = format!("{}{}.{}", ascii(rng.below(6), rng).replace(' ', "_"), i, ext);
            d.kids.push(image(&nm, s, rng));
        }
    }
    d
}

/// make sure the archive's region can be recognised from its first name
pub fn fit_region(root: &mut M, iv: [u8; 4]) {
    if root.kids.is_empty() {
        root.kids.push(M::with("first.img", V::Img, vec![M::new("a", V::Int(1))]));
    }
    let k = &mut root.kids[0];
    if !k.name.is_ascii() {
        k.name = "plain".into();
        if k.v == V::Img {
            k.name = "plain.img".into();
        }
    }
    let mut n = k.name.clone();
    // (one character is enough to tell this region from those tried before it)
    while !name_unambiguous(n.len(), iv) {
        n = format!("q{n}");
    }
    k.name = n;
}
