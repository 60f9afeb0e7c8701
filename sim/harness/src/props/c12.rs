//! Files are isolated: a result never depends on other files opened before or at the same time.
use crate::damage;
use crate::disk;
use crate::gen::*;
use crate::pix;
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::collections::hash_map::DefaultHasher;
use std::hash::Hasher;
use std::sync::{Arc, Mutex};
use wz_reader::property::{WzSubProperty, WzValue};
use wz_reader::util::string_decryptor::SharedWzStringDecryptor;
use wz_reader::version::WzMapleVersion;
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    world_knobs(p, rng, 3);
    if p.knob("files") == 1 || rng.chance(1, 2) {
        // different regions and formats
        let n = 2 + rng.below(3);
        p.set("files", n as i64);
        for i in 0..n {
            p.set(&format!("form{i}"), *rng.pick(&[0, 0, 0, 1, 2, 2, 3, 3, 4, 5, 6, 6]));
            p.set(&format!("region{i}"), rng.below(4) as i64);
        }
    }
    // files with keys nobody knows: the same, close to each other, close to a known one, or unrelated
    let near = |iv: [u8; 4], rng: &mut Rng| {
        let mut v = iv;
        match rng.below(4) {
            0 => {}
            1 => v.reverse(),
            2 => v[rng.below(4) as usize] ^= 1 << rng.below(8),
            _ => v = (rng.next() as u32).to_le_bytes(),
        }
        u32::from_le_bytes(v) as i64
    };
    for i in 0..p.knob("files") {
        let base = if rng.chance(3, 4) { CUSTOM } else { *rng.pick(&REGIONS) };
        let mut iv = near(base, rng);
        if REGIONS[..3].iter().any(|r| u32::from_le_bytes(*r) as i64 == iv) {
            iv = u32::from_le_bytes(CUSTOM) as i64;
        }
        p.set(&format!("iv{i}"), iv);
    }
    p.set("big", *rng.pick(&[30, 60, 300]));
    p.set("depth", *rng.pick(&[0, 1, 2]));
    p.set("side", *rng.pick(&[4, 9]));
    p.set("crowd", rng.chance(1, 10) as i64);
    let nf = rng.below(3);
    for _ in 0..nf {
        p.faults.push(damage::draw(rng));
    }
    let files = p.knob("files") as u64;
    let nt = *rng.pick(&[1, 1, 2, 2, 3]);
    for _ in 0..nt {
        let n = if nt == 1 { 3 + rng.below(8) } else { 2 + rng.below(4) };
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(24) {
                        20 | 21 => "twin",
                        22 | 23 => "mem",
                        0..=9 => "open",
                        10 | 11 => "bad",
                        12 => "miss",
                        13 => "keep",
                        14 | 15 => "again",
                        16 => "drop",
                        17 => "share",
                        _ => "same",
                    };
                    op(k, rng.below(files), rng.next() >> 32, if rng.chance(2, 3) { 0 } else { 1 + rng.below(9) })
                })
                .collect(),
        );
    }
}
fn hash(b: &[u8]) -> u64 {
    let mut h = DefaultHasher::new();
    h.write(b);
    h.finish()
}
fn head(o: &WzObjectType) -> String {
    let key = |k: &SharedWzStringDecryptor| match k.read() {
        Ok(k) => format!("{:?}/{:x}", k.get_enc_type(), k.get_iv_hash()),
        Err(_) => "poisoned".to_string(),
    };
    simstd::sim::client(|| match o {
        WzObjectType::File(f) => {
            let m = &f.wz_file_meta;
            format!(
                "file version {} hash {:x} encver {} verified {} size {} at {} keys {} pkg2 {}",
                m.patch_version,
                m.hash,
                m.wz_with_encrypt_version_header,
                m.string_decryptor_verified,
                f.block_size,
                f.offset,
                key(&f.reader.keys),
                key(&f.reader.pkg2_keys)
            )
        }
        WzObjectType::Image(i) => format!("image at {} size {} keys {}", i.offset, i.block_size, key(&i.reader.keys)),
        o => kind_name(o).to_string(),
    })
}
fn value(o: &WzObjectType) -> String {
    let b = |b: &[u8]| format!("{} bytes {:x}", b.len(), hash(b));
    count(C_DECODE);
    let v = match o {
        WzObjectType::Property(WzSubProperty::PNG(p)) => match p.extract_png() {
            Ok(i) => {
                let (k, w, h, px) = pix::observed(&i);
                format!("{k} {w}x{h} {}", b(&px))
            }
            Err(_) => format!("{}x{} error", p.width, p.height),
        },
        WzObjectType::Property(WzSubProperty::Sound(p)) => format!("{:?} {} {}", p.sound_type, p.duration, b(&p.get_buffer())),
        WzObjectType::Value(v) => match v {
            WzValue::RawData(d) => b(d.get_buffer()),
            WzValue::Video(d) => b(d.get_buffer()),
            WzValue::Lua(l) => match l.extract_lua() {
                Ok(s) => b(s.as_bytes()),
                Err(_) => "error".into(),
            },
            WzValue::String(a) | WzValue::UOL(a) => match a.get_string() {
                Ok(s) => format!("{} bytes {:x} {:?}", s.len(), hash(s.as_bytes()), s.chars().take(20).collect::<String>()),
                Err(_) => "error".into(),
            },
            v => format!("{v:?}"),
        },
        _ => String::new(),
    };
    format!("{} {v}", kind_name(o))
}
/// one line per node; `r` decides the order in which the nodes are visited
fn print(root: &WzNodeArc, r: u64, whole: bool) -> String {
    let mut lines = vec![];
    let mut todo = vec![(String::new(), root.clone())];
    let mut g = Rng::new(r);
    let mut n = 0;
    while !todo.is_empty() {
        let i = if r == 0 { todo.len() - 1 } else { g.below(todo.len() as u64) as usize };
        let (path, x) = todo.remove(i);
        n += 1;
        if n > 3000 && !whole {
            break;
        }
        if parse(&x).is_err() {
            lines.push(format!("{path}: parse fails"));
        }
        let s = snap(&x);
        match s.obj {
            WzObjectType::File(_) | WzObjectType::Image(_) | WzObjectType::MsFile(_) => lines.push(format!("{path}: {}", head(&s.obj))),
            _ => lines.push(format!("{path}: {}", value(&s.obj))),
        }
        for (k, c) in s.kids.into_iter().rev() {
            let here = format!("{path}/{k}");
            let cs = snap(&c);
            if cs.parent.is_some_and(|p| Arc::ptr_eq(&p, &x)) && cs.name == k {
                todo.push((here, c));
            } else {
                lines.push(format!("{here}: leads to {}", cs.name));
            }
        }
    }
    lines.sort();
    lines.join("\n")
}
fn region(i: u64) -> WzMapleVersion {
    [WzMapleVersion::GMS, WzMapleVersion::EMS, WzMapleVersion::BMS][i as usize % 3]
}
/// the different ways to open a file; 0 is without any hint
const WAYS: u64 = 10;
fn open(f: &FileW, path: &str, way: u64, key: Option<&SharedWzStringDecryptor>) -> Result<WzNode, wz_reader::node::Error> {
    count(C_OPEN);
    let at = REGIONS.iter().position(|r| *r == f.iv).unwrap_or(3) as u64;
    let right = match f.pack {
        Some(Pack::Pkg1 { ver, .. }) => ver,
        _ => -1,
    };
    match f.kind {
        Kind::Ms => WzNode::from_ms_file(path, None),
        Kind::Wz => {
            let (v, pv) = match way {
                1 => (None, Some(right)),
                2 => (None, Some(if right == 83 { 84 } else { 83 })),
                3 => (Some(region(at)), None),
                4 => (Some(region(at + 1)), None),
                5 => (Some(region(at + 2)), None),
                6 => (Some(region(at)), Some(right)),
                7 => (Some(WzMapleVersion::UNKNOWN), None),
                _ => (None, None),
            };
            if pv.is_none_or(|v| v == -1) && v.is_none() && key.is_none() {
                return WzNode::from_wz_file(path, None);
            }
            WzNode::from_wz_file_full(path, v, pv.filter(|v| *v != -1), None, key)
        }
        Kind::Img => match way {
            3 if at < 3 => WzNode::from_img_file(path, Some(region(at)), None),
            4 if at < 3 => WzNode::from_img_file(path, Some(region(at + 1)), None),
            5 => WzNode::from_img_file_with_iv(path, CUSTOM, None),
            6 | 7 => WzNode::from_img_file(path, None, None),
            _ if at < 3 => WzNode::from_img_file(path, None, None),
            _ => WzNode::from_img_file_with_iv(path, f.iv, None),
        },
    }
}
fn opened(f: &FileW, path: &str, way: u64, key: Option<&SharedWzStringDecryptor>, r: u64, whole: bool) -> String {
    match open(f, path, way, key) {
        Ok(n) => print(&n.into_lock(), r, whole),
        Err(_) => "open fails".into(),
    }
}
struct T {
    f: FileW,
    /// what it gives when nothing else was opened, by way
    alone: Vec<Option<String>>,
}
struct Ctx {
    fs: Vec<T>,
    bad: Vec<T>,
    /// of each file another of the same length with other payloads
    twins: Vec<Option<T>>,
    kept: Mutex<Vec<(u64, u64, WzNodeArc)>>,
}
fn differ(what: &str, got: &str, want: &str) {
    if got == want {
        count(C_OKCHECK);
        return;
    }
    let (mut g, mut w) = (got.lines(), want.lines());
    loop {
        match (g.next(), w.next()) {
            (a, b) if a == b => {}
            (a, b) => violate("isolation", &format!("{what}: with other files around {:?}, alone {:?}", a.unwrap_or("(nothing)"), b.unwrap_or("(nothing)"))),
        }
    }
}
fn intact(f: &FileW, way: u64) -> bool {
    // (a short first name may read as text with a wrong key)
    way < 3 || !(4..=5).contains(&way) || f.kind != Kind::Img && !f.faint()
}
pub fn run(p: &Plan) {
    let w = World::make(p);
    let mut used = vec![[false; WAYS as usize]; w.files.len()];
    for o in p.threads.iter().flatten() {
        let u = &mut used[o.a as usize];
        u[o.c as usize] = true;
        u[0] = true;
    }
    // the other file of "same"
    let other = |o: &Op| (o.b % w.files.len() as u64) as usize;
    for o in p.threads.iter().flatten() {
        used[other(o)][0] = true;
    }
    let fs: Vec<T> = w
        .files
        .iter()
        .zip(&used)
        .map(|(f, u)| T {
            f: f.clone(),
            alone: (0..WAYS)
                .map(|way| {
                    if !u[way as usize] {
                        return None;
                    }
                    match alone(|| opened(f, &f.path, way, None, 0, intact(f, way))) {
                        Ok(s) if way == 0 && s == "open fails" => violate("open", &format!("opening the intact file {} fails", f.path)),
                        Ok(s) if way == 0 && s.contains(": parse fails") => {
                            violate("open", &format!("in the intact file {} {}", f.path, s.lines().find(|l| l.ends_with(": parse fails")).unwrap()))
                        }
                        Ok(s) => Some(s),
                        Err(e) if intact(f, way) => violate("alone", &format!("{} opened by itself (way {way}): {e}", f.path)),
                        Err(_) => None,
                    }
                })
                .collect(),
        })
        .collect();
    let mut bad = vec![];
    for (i, o) in p.faults.iter().enumerate() {
        let f = &w.files[i % w.files.len()];
        let mut b = f.bytes.clone();
        damage::apply(f, &mut b, o, &w.files[(i + 1) % w.files.len()].bytes);
        let f = FileW { path: format!("bad{i}/{}", f.path), bytes: b, ..f.clone() };
        f.write();
        let a = alone(|| opened(&f, &f.path, 0, None, 0, false)).ok();
        bad.push(T { f, alone: vec![a] });
    }
    let mut twins = vec![];
    for (i, f) in w.files.iter().enumerate() {
        let mut g = Rng::new(p.knob("wseed") as u64 ^ 0x7717 ^ i as u64);
        if !p.threads.iter().flatten().any(|o| o.k == "twin" && o.a as usize == i) {
            twins.push(None);
            continue;
        }
        let mut b = f.bytes.clone();
        for (_, at, len) in &f.lay.pay {
            for _ in 0..1 + g.below(3) {
                let at = at + g.below(*len as u64) as usize;
                if let Some(x) = b.get_mut(at) {
                    *x ^= 1 << g.below(8);
                }
            }
        }
        // (some other places too, behind what opening looks at)
        for _ in 0..g.below(3) {
            let Some((_, at, len)) = f.lay.images.get(g.below(f.lay.images.len().max(1) as u64) as usize) else { continue };
            if *len > 30 {
                let at = at + 20 + g.below(*len as u64 - 20) as usize;
                if let Some(x) = b.get_mut(at) {
                    *x ^= 1 << g.below(8);
                }
            }
        }
        let f = FileW { path: format!("twin{i}/{}", f.path), bytes: b, ..f.clone() };
        f.write();
        let a = alone(|| opened(&f, &f.path, 0, None, 0, false)).ok();
        twins.push(a.map(|a| T { f, alone: vec![Some(a)] }));
    }
    let c = Ctx { fs, bad, twins, kept: Mutex::new(vec![]) };
    let nt = p.threads.len();
    threads(p, move |tid, o| {
        let t = &c.fs[o.a as usize];
        let f = &t.f;
        let what = format!("{} (way {})", f.path, o.c);
        match o.k.as_str() {
            "open" => {
                if let Some(want) = &t.alone[o.c as usize] {
                    differ(&what, &opened(f, &f.path, o.c, None, o.b | 1, intact(f, o.c)), want);
                }
            }
            // with the decryptor of another file
            "share" => {
                let others: Vec<WzNodeArc> = c.kept.lock().unwrap().iter().map(|k| k.2.clone()).collect();
                // (the choice among the three known regions is what a file is made to be clear about)
                let known = |k: &SharedWzStringDecryptor| {
                    let h = simstd::sim::client(|| k.read().unwrap().get_iv_hash()) as u32;
                    REGIONS[..3].iter().any(|r| u32::from_le_bytes(*r) == h)
                };
                let key = others.iter().find_map(|n| match &snap(n).obj {
                    WzObjectType::File(f) => Some(f.reader.keys.clone()),
                    WzObjectType::Image(i) => Some(i.reader.keys.clone()),
                    _ => None,
                });
                let key = key.filter(known);
                if f.kind == Kind::Wz && !f.faint() {
                    if let (Some(want), Some(key)) = (&t.alone[0], &key) {
                        // which object decrypts must not matter
                        differ(&format!("{} with a shared key", f.path), &opened(f, &f.path, 0, Some(key), o.b | 1, true), want);
                    }
                }
            }
            "bad" => {
                if !c.bad.is_empty() {
                    let t = &c.bad[o.b as usize % c.bad.len()];
                    if let Some(want) = &t.alone[0] {
                        count(C_DAMAGE);
                        // damaged data may be a graph: the same order of visits
                        differ(&t.f.path, &opened(&t.f, &t.f.path, 0, None, 0, false), want);
                    }
                }
            }
            "miss" => {
                let path = format!("nothing/{}", f.path);
                match open(f, if o.b % 2 == 0 { &path } else { "." }, o.c, None) {
                    Ok(_) => violate("isolation", &format!("{path} does not exist and was opened")),
                    Err(e) => drop((e.to_string(), count(C_ERR))),
                }
            }
            "keep" => match open(f, &f.path, 0, None) {
                Ok(n) => {
                    let n = n.into_lock();
                    if o.b % 2 == 0 {
                        let _ = parse(&n);
                    }
                    c.kept.lock().unwrap().push((o.a, tid as u64, n));
                }
                Err(e) => violate("isolation", &format!("opening {} fails: {e}", f.path)),
            },
            "again" => {
                let k = {
                    let k = c.kept.lock().unwrap();
                    let mine: Vec<_> = k.iter().filter(|k| k.1 == tid as u64).collect();
                    if mine.is_empty() {
                        return;
                    }
                    let k = mine[o.b as usize % mine.len()];
                    (k.0, k.2.clone())
                };
                if o.b % 3 == 0 {
                    unparse(&k.1);
                }
                let t = &c.fs[k.0 as usize];
                differ(&format!("{} kept open", t.f.path), &print(&k.1, o.b | 1, true), t.alone[0].as_ref().unwrap());
            }
            "drop" => {
                let gone = {
                    let mut k = c.kept.lock().unwrap();
                    let i = k.iter().position(|k| k.1 == tid as u64);
                    i.map(|i| k.remove(i))
                };
                count(C_DROP);
                drop(gone);
            }
            // another file under the same path
            "same" => {
                let i = (o.b % c.fs.len() as u64) as usize;
                let (a, b) = (t, &c.fs[i]);
                if a.f.kind == Kind::Ms || b.f.kind == Kind::Ms {
                    return;
                }
                let path = format!("here{tid}");
                let mut last = None;
                for (n, x) in [a, b, a].iter().enumerate() {
                    let _ = disk::sim_free(|| std::fs::remove_file(&path));
                    disk::put(&path, &x.f.bytes);
                    let want = x.alone[0].as_ref().unwrap();
                    let Ok(r) = open(&x.f, &path, 0, None) else { violate("isolation", &format!("{} as {path} after another file: opening fails", x.f.path)) };
                    let r = r.into_lock();
                    differ(&format!("{} as {path} after another file", x.f.path), &print(&r, o.b | 1, true), want);
                    if n == 0 && o.b % 3 == 0 {
                        last = Some(r);
                    }
                }
                if let Some(r) = last {
                    differ(&format!("{} kept open while its path was reused", a.f.path), &print(&r, o.b | 1, true), a.alone[0].as_ref().unwrap());
                }
            }
            // a file of the same length takes the place of another, and the other way round
            "twin" => {
                let Some(u) = &c.twins[o.a as usize] else { return };
                // (the name of an image file and of an .ms file matters)
                let name = f.path.rsplit('/').next().unwrap_or("");
                let dir = format!("same{tid}");
                let path = format!("{dir}/{name}");
                disk::sim_free(|| std::fs::create_dir_all(&dir).unwrap());
                let mut last = None;
                for n in 0..3 {
                    let x = if n % 2 == o.b as usize % 2 { t } else { u };
                    if o.b & 2 != 0 || last.is_some() {
                        let _ = disk::sim_free(|| std::fs::remove_file(&path));
                    }
                    disk::put(&path, &x.f.bytes);
                    let r = match open(&x.f, &path, 0, None) {
                        Ok(r) => {
                            let r = r.into_lock();
                            let once = print(&r, 0, false);
                            if o.b & 4 != 0 {
                                last = Some((r, x));
                            }
                            once
                        }
                        Err(_) => "open fails".into(),
                    };
                    differ(&format!("{} in the place of one of the same length", x.f.path), &r, x.alone[0].as_ref().unwrap());
                }
                if let Some((r, x)) = last {
                    differ(&format!("{} kept open while one of the same length took its place", x.f.path), &print(&r, 0, false), x.alone[0].as_ref().unwrap());
                }
            }
            // images of a file that is in memory
            "mem" => {
                count(C_OPEN);
                let pkg1 = f.kind == Kind::Wz && f.bytes.starts_with(b"PKG1");
                let ok = match f.kind {
                    Kind::Img => simstd::sim::client(|| wz_reader::version::verify_iv_from_wz_img(&f.bytes, &f.iv)),
                    Kind::Wz if pkg1 => simstd::sim::client(|| wz_reader::version::verify_iv_from_wz_file(&f.bytes, &f.iv).is_ok()),
                    _ => return,
                };
                if !ok {
                    violate("isolation", &format!("{}: the key of the file does not fit its bytes in memory", f.path));
                }
                let keys = |r: wz_reader::WzReader| if o.b & 1 == 0 { r.with_iv(f.iv) } else { r.with_existing_keys(std::sync::Arc::new(simstd::sync::RwLock::new(wz_reader::util::string_decryptor::ecb_decryptor::EcbDecryptor::from_iv(f.iv)))) };
                let reader = Arc::new(simstd::sim::client(|| keys(wz_reader::WzReader::from_buff(&f.bytes))));
                let images = if pkg1 { f.lay.images.clone() } else { vec![(String::new(), 0, f.bytes.len())] };
                for i in 0..2.min(images.len()) {
                    let (p, at, len) = &images[(o.b as usize / 2 + i) % images.len()];
                    let m = if p.is_empty() { &f.root } else { f.root.at(p).unwrap() };
                    let img = wz_reader::WzImage::new(&m.name.as_str().into(), *at, *len, &reader);
                    let n = WzNode::new(&m.name.as_str().into(), img, None).into_lock();
                    must_match("isolation", &format!("image {p:?} of {} read from memory", f.path), &n, m, FULL);
                }
            }
            k => harness_error(k),
        }
    });
    let _ = nt;
}
