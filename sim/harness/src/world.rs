//! Generated files on the simulated disk, opening them, and comparing what the library gives with the model.
use crate::gen::*;
use crate::model::{self, Shape};
use crate::pix;
use crate::run::{self, count, violate, Plan};
use simstd::sim::{self, Rng};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use wz_reader::property::{WzSoundType, WzSubProperty, WzValue};
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Wz,
    Img,
    Ms,
}
#[derive(Clone)]
pub struct FileW {
    /// path on the scratch disk
    pub path: String,
    pub kind: Kind,
    pub root: M,
    pub iv: [u8; 4],
    pub pack: Option<Pack>,
    pub bytes: Vec<u8>,
    pub lay: Layout,
}
pub const CUSTOM: [u8; 4] = [0x11, 0x9C, 0xE3, 0x57];
pub const REGIONS: [[u8; 4]; 4] = [GMS, EMS, BMS, CUSTOM];

pub fn shape_of(p: &Plan) -> Shape {
    let k = |n: &str, d: i64| p.knobs.get(n).copied().unwrap_or(d) as u64;
    Shape {
        kids: k("kids", 5),
        depth: k("pdepth", 3),
        big: k("big", 300),
        side: k("side", 12).max(1),
        links: k("links", 1) != 0,
        canvas: k("canvas", 120),
        sound: k("sound", 80),
        str_: k("str", 200),
        long_names: k("long", 0) != 0,
        good_fmt: k("goodfmt", 0) != 0,
        own_names: k("ownnames", 0) != 0,
        crowd: k("crowd", 0) != 0,
    }
}

pub fn make_pack(kind: u64, rng: &mut Rng) -> Pack {
    match kind {
        0 => Pack::Pkg1 { ver: 1 + rng.below(250) as i32, enc: true },
        1 => Pack::Pkg1 { ver: 770, enc: false },
        6 => pkg2_old(rng),
        _ => pkg2_hashes(rng),
    }
}
/// stem: file name without extension. `form`: 0 wz with version check, 1 wz without, 2 pkg2, 3 img, 4 ms, 5 newer ms, 6 older pkg2
pub fn make_file(dir: &str, stem: &str, form: u64, iv: [u8; 4], s: &Shape, depth: u64, width: u64, rng: &mut Rng) -> FileW {
    match form {
        3 => {
            let name = format!("{stem}.img");
            let mut root = model::image(&name, s, rng);
            // a loose image carries no name table: its region shows in the header only
            while matches!(root.kids.first(), Some(M { v: V::Text(_) | V::Lua(_), .. })) {
                root = model::image(&name, s, rng);
            }
            wrap_img(dir, root, iv, rng)
        }
        4 | 5 => {
            let mut root = M::new(stem, V::Dir);
            let n = 1 + rng.below(width);
            for i in 0..n {
                let nm = format!("{}{}.img", model::ascii(rng.below(6), rng).replace(' ', "_"), i);
                root.kids.push(model::image(&nm, s, rng));
            }
            wrap_ms(dir, root, form == 5, rng)
        }
        _ => {
            let mut root = model::dir(stem, s, depth, width, rng);
            // sometimes there is next to nothing to recognise the region by
            let mut g = rng.clone();
            if root.kids.first().is_some_and(|k| k.v == V::Dir) && g.chance(1, 6) {
                let c = (b'A' + g.below(26) as u8) as char;
                if root.kid(&c.to_string()).is_none() {
                    root.kids[0].name = c.into();
                }
            }
            if s.crowd && form == 1 {
                let all = 256 - rng.below(8) as usize;
                for i in root.kids.len()..all {
                    root.kids.push(M::with(&format!("crowd{i}.img"), V::Img, vec![M::new("n", V::Int(i as i32))]));
                }
            }
            let pack = make_pack(form, rng);
            wrap_wz(dir, root, iv, pack, rng)
        }
    }
}
pub fn wrap_wz(dir: &str, mut root: M, iv: [u8; 4], pack: Pack, rng: &mut Rng) -> FileW {
    let iv = if matches!(pack, Pack::Pkg1 { .. }) { iv } else { BMS };
    let mut pack = pack;
    let (bytes, lay) = loop {
        fit_first(&mut root, iv, &pack);
        match pack {
            Pack::Old { ver, hash, .. } => match archive_once(&root, iv, &pack, rng) {
                Some(x) => {
                    // (the search goes through these instead of all 2^32)
                    crate::disk::sim_free(|| wz_reader::version::pkg2::SIM_CANDIDATES.write().unwrap().extend([hash ^ 1, hash, hash.wrapping_add(7)]));
                    break x;
                }
                // other hashes of the same check value fit, whatever the layout
                None => pack = pkg2_old_of(ver, rng),
            },
            _ => break archive(&root, iv, &pack, rng),
        }
    };
    let path = join(dir, &format!("{}.wz", root.name));
    FileW { path, kind: Kind::Wz, root, iv, pack: Some(pack), bytes, lay }
}
fn fit_first(root: &mut M, iv: [u8; 4], pack: &Pack) {
    model::fit_region(root, iv);
    if let Pack::Old { ver, hash1, hash } = *pack {
        while !old::name_ok(ver, hash1, hash, &root.kids[0].name) || root.kids[1..].iter().any(|k| k.name == root.kids[0].name) {
            root.kids[0].name.insert(0, 'q');
        }
    }
}
pub fn wrap_img(dir: &str, root: M, iv: [u8; 4], rng: &mut Rng) -> FileW {
    let o = image_out(&root, iv, rng.fork());
    let mut lay = Layout { images: vec![(String::new(), 0, o.b.len())], len: o.b.len(), ..Default::default() };
    lay.add_image("", 0, &o);
    let bytes = o.b;
    FileW { path: join(dir, &root.name), kind: Kind::Img, root, iv, pack: None, bytes, lay }
}
pub fn wrap_ms(dir: &str, root: M, newer: bool, rng: &mut Rng) -> FileW {
    let name = format!("{}.ms", root.name);
    let (bytes, lay) = ms_file(&name, &root, newer, rng);
    FileW { path: join(dir, &name), kind: Kind::Ms, root, iv: BMS, pack: None, bytes, lay }
}
pub fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.into()
    } else {
        format!("{a}/{b}")
    }
}

impl FileW {
    /// is the first name too short to rule out the regions that are tried later?
    pub fn faint(&self) -> bool {
        self.kind == Kind::Wz && self.root.kids.first().is_some_and(|k| k.name.len() < 4)
    }
    pub fn write(&self) {
        if let Some((d, _)) = self.path.rsplit_once('/') {
            crate::disk::sim_free(|| std::fs::create_dir_all(d).unwrap());
        }
        crate::disk::put(&self.path, &self.bytes);
    }
    pub fn open(&self, parent: Option<&WzNodeArc>) -> Result<WzNode, wz_reader::node::Error> {
        count(run::C_OPEN);
        match self.kind {
            Kind::Wz => WzNode::from_wz_file(&self.path, parent),
            Kind::Ms => WzNode::from_ms_file(&self.path, parent),
            Kind::Img if REGIONS[..3].contains(&self.iv) => WzNode::from_img_file(&self.path, None, parent),
            Kind::Img => WzNode::from_img_file_with_iv(&self.path, self.iv, parent),
        }
    }
    pub fn open_arc(&self) -> WzNodeArc {
        match self.open(None) {
            Ok(n) => n.into_lock(),
            Err(e) => violate("open", &format!("opening the intact file {} fails: {e} / {e:?}", self.path)),
        }
    }
    /// paths of the images inside ("" for a loose image)
    pub fn image_paths(&self) -> Vec<String> {
        if self.kind == Kind::Img {
            return vec![String::new()];
        }
        self.root.paths_where(|m| m.v == V::Img)
    }
    pub fn model_at(&self, p: &str) -> &M {
        if p.is_empty() {
            &self.root
        } else {
            self.root.at(p).unwrap()
        }
    }
}

pub struct World {
    pub files: Vec<FileW>,
}
impl World {
    /// files as the plan's knobs say
    pub fn make(p: &Plan) -> World {
        let n = p.knob("files").max(1);
        let base = Rng::new(p.knob("wseed") as u64).next();
        let s = shape_of(p);
        let files = (0..n)
            .map(|i| {
                let mut rng = Rng::new(base.wrapping_add(i as u64 * 7919));
                let form = p.knob(&format!("form{i}")) as u64;
                let region = p.knob(&format!("region{i}")) as usize;
                let iv = match form {
                    3 if region % 4 == 3 => p.knobs.get(&format!("iv{i}")).map_or(CUSTOM, |v| (*v as u32).to_le_bytes()),
                    3 => REGIONS[region % 4],
                    _ => REGIONS[region % 3],
                };
                make_file("", &format!("F{i}"), form, iv, &s, p.knobs.get("depth").copied().unwrap_or(2) as u64, p.knobs.get("width").copied().unwrap_or(4).max(1) as u64, &mut rng)
            })
            .collect();
        let w = World { files };
        for f in &w.files {
            if std::env::var_os("WZSIM_DUMP").is_some() {
                if let Some(p) = &f.pack {
                    eprintln!("{} {p:?}", f.path);
                }
                dump(&f.root, 0);
            }
            f.write();
        }
        w
    }
}
/// knobs for `World::make`
pub fn world_knobs(p: &mut Plan, rng: &mut Rng, max_files: u64) {
    p.set("wseed", rng.below(1 << 40) as i64);
    let n = 1 + rng.below(max_files);
    p.set("files", n as i64);
    let same = rng.chance(2, 3);
    let r0 = rng.below(4) as i64;
    for i in 0..n {
        let form = *rng.pick(&[0, 0, 0, 1, 2, 3, 3, 4, 5, 6]);
        p.set(&format!("form{i}"), form);
        p.set(&format!("region{i}"), if same { r0 } else { rng.below(4) as i64 });
    }
    p.set("depth", rng.below(3) as i64);
    p.set("width", 1 + rng.below(5) as i64);
    p.set("kids", 2 + rng.below(6) as i64);
    p.set("pdepth", rng.below(4) as i64);
    p.set("big", *rng.pick(&[60, 300, 300, 2000]));
    p.set("side", *rng.pick(&[4, 12, 20]));
    p.set("long", rng.below(4) as i64 / 3);
}

// ------------------------------------------------------------------ guards
/// read a node as a client does
pub fn rd<R>(n: &WzNodeArc, f: impl FnOnce(&WzNode) -> R) -> R {
    match sim::client(|| n.read()) {
        Ok(g) => f(&g),
        Err(_) => violate("poisoned", "a node's lock is poisoned"),
    }
}
pub fn wr<R>(n: &WzNodeArc, f: impl FnOnce(&mut WzNode) -> R) -> R {
    match sim::client(|| n.write()) {
        Ok(mut g) => f(&mut g),
        Err(_) => violate("poisoned", "a node's lock is poisoned"),
    }
}
pub fn parse(n: &WzNodeArc) -> Result<(), wz_reader::node::Error> {
    count(run::C_PARSE);
    // both ways of parsing take turns
    let r = match run::counted(run::C_PARSE) % 2 {
        0 => wr(n, |g| g.parse(n)),
        _ => wz_reader::util::node_util::parse_node(n),
    };
    if r.is_err() {
        count(run::C_ERR);
    }
    r
}
pub fn unparse(n: &WzNodeArc) {
    count(run::C_UNPARSE);
    wr(n, |g| g.unparse())
}
/// children are listed in the order of the file in this build
pub const ORDERED: bool = cfg!(feature = "alt");
pub struct Snap {
    /// the children's names as they are listed
    pub order: Vec<String>,
    pub name: String,
    pub obj: WzObjectType,
    pub parent: Option<WzNodeArc>,
    pub kids: Vec<(String, WzNodeArc)>,
}
impl Snap {
    pub fn kid(&self, n: &str) -> Option<&WzNodeArc> {
        self.kids.iter().find(|k| k.0 == n).map(|k| &k.1)
    }
}
pub fn snap(n: &WzNodeArc) -> Snap {
    rd(n, snap_of)
}
pub fn snap_of(g: &WzNode) -> Snap {
    let mut kids: Vec<(String, WzNodeArc)> = g.children.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let order = if ORDERED { kids.iter().map(|k| k.0.clone()).collect() } else { vec![] };
    kids.sort_by(|a, b| a.0.cmp(&b.0));
    Snap { order, name: g.name.to_string(), obj: g.object_type.clone(), parent: g.parent.upgrade(), kids }
}
/// does the node say that its children are there? None for kinds that are never parsed
pub fn parsed_flag(o: &WzObjectType) -> Option<bool> {
    match o {
        WzObjectType::File(f) => Some(f.is_parsed),
        WzObjectType::Directory(f) => Some(f.is_parsed),
        WzObjectType::Image(f) => Some(f.is_parsed),
        WzObjectType::MsFile(f) => Some(f.is_parsed),
        WzObjectType::MsImage(_) => Some(false),
        _ => None,
    }
}
pub fn kind_name(o: &WzObjectType) -> &'static str {
    match o {
        WzObjectType::File(_) => "file",
        WzObjectType::Directory(_) => "directory",
        WzObjectType::Image(_) => "image",
        WzObjectType::MsFile(_) => "ms file",
        WzObjectType::MsImage(_) => "ms image",
        WzObjectType::Property(WzSubProperty::Convex) => "convex",
        WzObjectType::Property(WzSubProperty::Sound(_)) => "sound",
        WzObjectType::Property(WzSubProperty::PNG(_)) => "canvas",
        WzObjectType::Property(WzSubProperty::Property) => "property",
        WzObjectType::Value(v) => match v {
            WzValue::RawData(_) => "raw",
            WzValue::Video(_) => "video",
            WzValue::Lua(_) => "lua",
            WzValue::Short(_) => "short",
            WzValue::Int(_) => "int",
            WzValue::Long(_) => "long",
            WzValue::Float(_) => "float",
            WzValue::Double(_) => "double",
            WzValue::Vector(_) => "vector",
            WzValue::UOL(_) => "uol",
            WzValue::String(_) => "string",
            WzValue::ParsedString(_) => "parsed string",
            WzValue::Null => "null",
        },
    }
}
pub fn model_kind(v: &V) -> &'static str {
    match v {
        V::Dir => "directory",
        V::Img => "image",
        V::Null => "null",
        V::Short(_) => "short",
        V::Int(_) => "int",
        V::Long(_) => "long",
        V::Float(_) => "float",
        V::Double(_) => "double",
        V::Str(_) => "string",
        V::Vec2(..) => "vector",
        V::Uol(_) => "uol",
        V::Prop => "property",
        V::Canvas(_) => "canvas",
        V::Convex => "convex",
        V::Sound(_) => "sound",
        V::Raw(_) | V::Text(_) => "raw",
        V::Video(_) => "video",
        V::Lua(_) => "lua",
    }
}

// ------------------------------------------------------------------ values
fn short(b: &[u8]) -> String {
    let n = b.len().min(24);
    format!("{} bytes {:02x?}{}", b.len(), &b[..n], if b.len() > n { ".." } else { "" })
}
fn same_bytes(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{what}: got {}, stored {}, first difference at byte {at}", short(got), short(want)))
}
fn cut(s: &str) -> String {
    s.chars().take(60).collect()
}
fn same_str(what: &str, got: &str, want: &str) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{what}: got {:?} ({} bytes), stored {:?} ({} bytes), first difference at byte {at}", cut(got), got.len(), cut(want), want.len()))
}
pub fn sound_type(s: &Snd) -> WzSoundType {
    if s.header.len() != 0x46 {
        return WzSoundType::Mp3;
    }
    let f = i32::from_le_bytes(s.header[0x38..0x3c].try_into().unwrap());
    if f == s.data.len() as i32 && s.dur == 1000 {
        WzSoundType::Binary
    } else {
        WzSoundType::Wav
    }
}
/// what an exported sound contains
pub fn sound_bytes(s: &Snd) -> Vec<u8> {
    let mut o = vec![];
    if sound_type(s) == WzSoundType::Wav {
        let n = s.data.len() as u32;
        o.extend_from_slice(b"RIFF");
        o.extend_from_slice(&(n + 36).to_le_bytes());
        o.extend_from_slice(b"WAVEfmt ");
        o.extend_from_slice(&16u32.to_le_bytes());
        o.extend_from_slice(&s.header[0x34..0x44]);
        o.extend_from_slice(b"data");
        o.extend_from_slice(&n.to_le_bytes());
    }
    o.extend_from_slice(&s.data);
    o
}
thread_local! { static PIX: std::cell::RefCell<HashMap<u64, Option<(u32, Vec<u8>)>>> = Default::default(); }
pub fn check_canvas(got: Result<image::DynamicImage, wz_reader::property::WzPngParseError>, c: &Canvas) -> Result<(), String> {
    use wz_reader::property::WzPngParseError as E;
    let want = pix::expect(c.fmt, c.w, c.h, &c.raw);
    match (got, want) {
        (Ok(i), Some((k, px))) => {
            let (gk, w, h, b) = pix::observed(&i);
            if (gk, w, h) != (k, c.w, c.h) {
                return Err(format!("canvas format {} {}x{}: got kind {gk} {w}x{h}", c.fmt, c.w, c.h));
            }
            same_bytes(&format!("pixels of a canvas of format {} {}x{}", c.fmt, c.w, c.h), &b, &px)
        }
        (Err(E::UnknownFormat(_)), None) => Ok(()),
        (Ok(_), None) => Err(format!("canvas of unsupported format {} gives an image", c.fmt)),
        (Err(e), w) => Err(format!("canvas format {} {}x{} listed={} ({}): extraction fails: {e}", c.fmt, c.w, c.h, c.listed, if w.is_some() { "intact" } else { "unsupported" })),
    }
}
/// decode the value and compare it with the stored one
pub fn check_value(o: &WzObjectType, m: &M) -> Result<(), String> {
    if o_kind(o) != model_kind(&m.v) {
        return Err(format!("kind is {} but the file stores {}", kind_name(o), model_kind(&m.v)));
    }
    count(run::C_DECODE);
    let r = check_value_(o, m);
    if r.is_ok() {
        count(run::C_OKCHECK);
    }
    r
}
fn o_kind(o: &WzObjectType) -> &'static str {
    match o {
        WzObjectType::File(_) | WzObjectType::MsFile(_) => "directory",
        WzObjectType::MsImage(_) => "image",
        _ => kind_name(o),
    }
}
fn check_value_(o: &WzObjectType, m: &M) -> Result<(), String> {
    let no = |g: String, w: String| if g == w { Ok(()) } else { Err(format!("got {g}, stored {w}")) };
    match (o, &m.v) {
        (WzObjectType::Property(WzSubProperty::PNG(p)), V::Canvas(c)) => {
            if (p.width, p.height) != (c.w, c.h) {
                return Err(format!("canvas says {}x{}, stored {}x{}", p.width, p.height, c.w, c.h));
            }
            check_canvas(p.extract_png(), c)
        }
        (WzObjectType::Property(WzSubProperty::Sound(p)), V::Sound(s)) => {
            if p.duration as i32 != s.dur {
                return Err(format!("sound duration {} stored {}", p.duration, s.dur));
            }
            if p.sound_type != sound_type(s) {
                return Err(format!("sound type {:?} stored {:?}", p.sound_type, sound_type(s)));
            }
            same_bytes("sound", &p.get_buffer(), &sound_bytes(s))
        }
        (WzObjectType::Value(v), mv) => match (v, mv) {
            (WzValue::RawData(d), V::Raw(b) | V::Text(b)) => same_bytes("raw data", d.get_buffer(), b),
            (WzValue::Video(d), V::Video(b)) => same_bytes("video", d.get_buffer(), b),
            (WzValue::Lua(l), V::Lua(s)) => match l.extract_lua() {
                Ok(g) => same_str("script", &g, s),
                Err(e) => Err(format!("script of {} bytes: {e}", s.len())),
            },
            (WzValue::Short(a), V::Short(b)) => no(a.to_string(), b.to_string()),
            (WzValue::Int(a), V::Int(b)) => no(a.to_string(), b.to_string()),
            (WzValue::Long(a), V::Long(b)) => no(a.to_string(), b.to_string()),
            (WzValue::Float(a), V::Float(b)) => no(format!("{:08x}", a.to_bits()), format!("{:08x}", b.to_bits())),
            (WzValue::Double(a), V::Double(b)) => no(format!("{:016x}", a.to_bits()), format!("{:016x}", b.to_bits())),
            (WzValue::Vector(a), V::Vec2(x, y)) => no(format!("({},{})", a.0, a.1), format!("({x},{y})")),
            (WzValue::String(a), V::Str(s)) | (WzValue::UOL(a), V::Uol(s)) => match a.get_string() {
                Ok(g) => same_str("string", &g, s),
                Err(e) => Err(format!("string of {} bytes: {e}", s.len())),
            },
            (WzValue::Null, V::Null) => Ok(()),
            _ => Err(format!("{} against {}", kind_name(o), model_kind(mv))),
        },
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------ trees
#[derive(Clone, Copy, Default)]
pub struct How {
    /// parse what is not parsed yet
    pub parse: bool,
    /// decode values too
    pub decode: bool,
    /// nodes below an unparsed node may be absent
    pub lazy: bool,
    /// leave images alone
    pub stop_at_images: bool,
}
pub type Handles = BTreeMap<String, WzNodeArc>;

/// compare the tree with the model; returns the handle of every node by model path
pub fn check_tree(node: &WzNodeArc, m: &M, how: How) -> Result<Handles, String> {
    let mut h = Handles::new();
    let mut uols: Vec<(String, String)> = vec![];
    h.insert(String::new(), node.clone());
    let img = if m.v == V::Img { Some(String::new()) } else { None };
    go(node, m, "", img.as_deref(), how, &mut h, &mut uols)?;
    // links, now that every node's handle is known
    for (img, at) in uols {
        let im = if img.is_empty() { m } else { m.at(&img).unwrap() };
        let inner = if img.is_empty() { at.as_str() } else { &at[img.len() + 1..] };
        let got = h[&at].clone();
        match model::uol_target(im, inner) {
            Some(t) => {
                let want = &h[&join(&img, &t)];
                if !Arc::ptr_eq(&got, want) {
                    return Err(format!("link {at} leads to {:?} ({}) and not to its target {}", snap(&got).name, kind_name(&snap(&got).obj), join(&img, &t)));
                }
            }
            None => {
                let s = snap(&got);
                if how.decode {
                    check_value(&s.obj, im.at(inner).unwrap()).map_err(|e| format!("unresolvable link {at}: {e}"))?;
                } else if kind_name(&s.obj) != "uol" {
                    return Err(format!("unresolvable link {at} became a {}", kind_name(&s.obj)));
                }
            }
        }
    }
    Ok(h)
}
fn go(node: &WzNodeArc, m: &M, path: &str, img: Option<&str>, how: How, h: &mut Handles, uols: &mut Vec<(String, String)>) -> Result<(), String> {
    let mut s = snap(node);
    if how.stop_at_images && m.v == V::Img {
        if o_kind(&s.obj) != "image" || s.name != m.name {
            return Err(format!("{path:?} is a {} named {:?} and not the image {:?}", kind_name(&s.obj), s.name, m.name));
        }
        return Ok(());
    }
    if parsed_flag(&s.obj) == Some(false) {
        if how.parse {
            if let Err(e) = parse(node) {
                return Err(format!("parsing {path:?} fails: {e}"));
            }
            s = snap(node);
            if parsed_flag(&s.obj) != Some(true) {
                return Err(format!("{path:?} is not parsed after a successful parse"));
            }
        } else if how.lazy && s.kids.is_empty() {
            return Ok(());
        }
    }
    if o_kind(&s.obj) != model_kind(&m.v) {
        return Err(format!("{path:?} is a {} and not a {}", kind_name(&s.obj), model_kind(&m.v)));
    }
    if s.name != m.name {
        return Err(format!("{path:?} is named {:?} and not {:?}", s.name, m.name));
    }
    let mut want: Vec<&str> = m.kids.iter().map(|k| k.name.as_str()).collect();
    want.sort();
    let got: Vec<&str> = s.kids.iter().map(|k| k.0.as_str()).collect();
    if want != got {
        let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(5).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(5).collect();
        return Err(format!("{path:?} ({}) has {} children and not {}: missing {miss:?}, extra {extra:?}", kind_name(&s.obj), got.len(), want.len()));
    }
    if ORDERED && crate::props::ordered() {
        if let Some(i) = (0..s.order.len()).find(|i| s.order[*i] != m.kids[*i].name) {
            return Err(format!("{path:?} ({}) lists {:?} at place {i} of {} and not {:?} as the file does", kind_name(&s.obj), s.order[i], s.order.len(), m.kids[i].name));
        }
        count(run::C_ORDER);
    }
    if how.decode {
        check_value(&s.obj, m).map_err(|e| format!("{path:?}: {e}"))?;
    }
    for k in &m.kids {
        let p = join(path, &k.name);
        let c = s.kid(&k.name).unwrap();
        h.insert(p.clone(), c.clone());
        let img = if k.v == V::Img { Some(p.as_str()) } else { img };
        if let (V::Uol(_), Some(i)) = (&k.v, img) {
            uols.push((i.to_string(), p));
            continue;
        }
        let par = rd(c, |g| g.parent.upgrade());
        match par {
            Some(a) if Arc::ptr_eq(&a, node) => {}
            Some(_) => return Err(format!("the parent of {p:?} is another node than the one listing it")),
            None => return Err(format!("{p:?} has no parent")),
        }
        go(c, k, &p, img, how, h, uols)?;
    }
    Ok(())
}
/// like a violation of `class` if the comparison fails
pub fn must_match(class: &str, what: &str, node: &WzNodeArc, m: &M, how: How) -> Handles {
    match check_tree(node, m, how) {
        Ok(h) => h,
        Err(e) => violate(class, &format!("{what}: {e}")),
    }
}
pub const FULL: How = How { parse: true, decode: true, lazy: false, stop_at_images: false };
pub const LOAD: How = How { parse: true, decode: false, lazy: false, stop_at_images: false };
pub const AS_IS: How = How { parse: false, decode: true, lazy: true, stop_at_images: false };
/// directories only
pub const LISTING: How = How { parse: true, decode: false, lazy: false, stop_at_images: true };

/// the contents, one line per value
pub fn dump(m: &M, depth: usize) {
    let mut v = format!("{:?}", m.v);
    v.truncate(v.char_indices().nth(90).map_or(v.len(), |x| x.0));
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/wzsim.dump").unwrap();
    let _ = writeln!(f, "{}{:?} {}", "  ".repeat(depth), m.name, v);
    for k in &m.kids {
        dump(k, depth + 1)
    }
}
