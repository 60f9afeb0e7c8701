//! Assembling a data directory is independent of listing order and fault-safe.
use crate::disk::{self, Hit};
use crate::gen::*;
use crate::model::{self, Shape};
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;
use std::os::unix::ffi::OsStrExt;
use std::sync::{Arc, Mutex};
use wz_reader::util::{resolve_base, resolve_root_wz_file_dir, resolve_root_wz_file_dir_full};
use wz_reader::util::version::WzMapleVersion;
use wz_reader::WzNodeArc;

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    p.set("wseed", rng.below(1 << 40) as i64);
    // 0: below a folder "Base" beside the others, 1: all beside Base.wz, 2: one folder, without a base file
    p.set("layout", rng.below(3) as i64);
    p.set("cwd", rng.chance(1, 3) as i64);
    p.set("pack", *rng.pick(&[0, 0, 0, 1, 2, 6]));
    p.set("region", rng.below(3) as i64);
    p.set("tops", 1 + rng.below(3) as i64);
    p.set("level", rng.below(3) as i64);
    p.set("parts", rng.below(4) as i64);
    p.set("junk", rng.below(256) as i64);
    p.set("clash", rng.chance(1, 6) as i64);
    p.set("version", rng.chance(1, 5) as i64);
    let nt = *rng.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..nt {
        let n = if nt == 1 { 1 + rng.below(5) } else { 1 + rng.below(2) };
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = *rng.pick(&["load", "load", "fault", "fault", "fault", "bad", "odd"]);
                    op(if nt > 1 { "load" } else { k }, rng.next() >> 32, rng.next() >> 32, rng.next() >> 32)
                })
                .collect(),
        );
    }
}
struct Make<'a> {
    pack: Pack,
    iv: [u8; 4],
    shape: Shape,
    parts: u64,
    clash: bool,
    rng: &'a mut Rng,
    files: Vec<FileW>,
    /// needed for the tree
    needed: Vec<usize>,
}
fn put_under(to: &mut M, from: M) {
    for k in from.kids {
        match to.kids.iter_mut().find(|x| x.name == k.name) {
            Some(old) if old.v == V::Dir && k.v == V::Dir => put_under(old, k),
            Some(old) => *old = k,
            None => to.kids.push(k),
        }
    }
}
impl Make<'_> {
    fn img(&mut self, nm: &str) -> M {
        let s = self.shape.clone();
        model::image(nm, &s, self.rng)
    }
    /// what one file lists by itself; `tag` makes its images its own
    fn content(&mut self, stem: &str, tag: &str, empty: &[String]) -> M {
        let mut m = M::new(stem, V::Dir);
        let clash = self.clash;
        for i in 0..self.rng.below(3) {
            let x = if clash && self.rng.chance(1, 2) { format!("both{i}.img") } else { format!("{tag}i{i}.img") };
            let x = self.img(&x);
            m.kids.push(x);
        }
        for i in 0..self.rng.below(3) {
            let mut d = M::new(&format!("c{i}"), V::Dir);
            for j in 0..1 + self.rng.below(2) {
                let x = self.img(&format!("{tag}j{j}.img"));
                d.kids.push(x);
            }
            if self.rng.chance(1, 3) {
                let x = self.img(&format!("{tag}k.img"));
                d.kids.push(M::with("deep", V::Dir, vec![x]));
            }
            m.kids.push(d);
        }
        if m.kids.is_empty() {
            let x = self.img(&format!("{tag}only.img"));
            m.kids.push(x);
        }
        for e in empty {
            m.kids.push(M::new(e, V::Dir));
        }
        m
    }
    fn file(&mut self, dir: &str, m: M) -> M {
        let f = wrap_wz(dir, m, self.iv, self.pack.clone(), self.rng);
        f.write();
        let r = f.root.clone();
        self.needed.push(self.files.len());
        self.files.push(f);
        r
    }
    /// a file with its parts and folders; returns what the node holds
    fn folder(&mut self, dir: &str, name: &str, level: u64) -> M {
        let subs: Vec<String> = if level == 0 { vec![] } else { (0..self.rng.below(3)).map(|i| format!("S{level}{i}")).collect() };
        let np = if self.parts == 0 { 0 } else { self.rng.below(self.parts + 1) };
        // each folder is listed by the file itself, by a part, or both
        let by: Vec<u64> = subs.iter().map(|_| if np == 0 { 0 } else { self.rng.below(3) }).collect();
        let listed = |want: &[u64]| -> Vec<String> { subs.iter().zip(&by).filter(|x| want.contains(x.1)).map(|x| x.0.clone()).collect() };
        let m = self.content(name, "r", &listed(&[0, 2]));
        let mut all = self.file(dir, m);
        let mut nums: Vec<u64> = vec![];
        while (nums.len() as u64) < np {
            let n = *self.rng.pick(&[0, 1, 2, 3, 9, 10, 99, 100, 1000, 65535]);
            if !nums.contains(&n) {
                nums.push(n);
            }
        }
        nums.sort();
        for (i, n) in nums.iter().enumerate() {
            let stem = if self.rng.chance(1, 5) { format!("{name}_{n}") } else { format!("{name}_{n:03}") };
            let m = self.content(&stem, &format!("p{n}"), &if i as u64 == np - 1 { listed(&[1, 2]) } else { vec![] });
            let m = self.file(dir, m);
            put_under(&mut all, m);
        }
        for s in &subs {
            if self.rng.chance(1, 6) {
                // a folder without its file, or no folder at all
                if self.rng.chance(1, 2) {
                    let d = join(dir, s);
                    disk::sim_free(|| std::fs::create_dir_all(d).unwrap());
                }
                continue;
            }
            let m = self.folder(&join(dir, s), s, level - 1);
            let k = all.kids.iter_mut().find(|k| k.name == *s).unwrap();
            *k = m;
        }
        all
    }
    fn junk(&mut self, dir: &str, name: &str, bits: u64) {
        let put = |n: &[u8], d: &[u8]| {
            let p = std::path::Path::new(if dir.is_empty() { "." } else { dir }).join(std::ffi::OsStr::from_bytes(n));
            disk::sim_free(|| {
                if !p.exists() {
                    std::fs::write(p, d).unwrap()
                }
            });
        };
        let g = b"not an archive";
        let n = name.as_bytes();
        if bits & 1 != 0 {
            put(&[n, b".ini"].concat(), g);
        }
        if bits & 2 != 0 {
            put(&[n, b"_extra.wz"].concat(), g);
        }
        if bits & 4 != 0 {
            put(b"notes_1.txt", g);
        }
        if bits & 8 != 0 {
            put(b"\xff\xfe_1.bin", g);
        }
        if bits & 16 != 0 {
            put(b"\xff\xfe", g);
        }
        if bits & 32 != 0 {
            let x = self.img("stray.img");
            let f = wrap_wz(dir, M::with("Stray_001", V::Dir, vec![x]), self.iv, self.pack.clone(), self.rng);
            f.write();
        }
        if bits & 64 != 0 {
            let d = join(dir, "Unlisted");
            disk::sim_free(|| std::fs::create_dir_all(&d).unwrap());
            disk::put(&join(&d, "Unlisted.wz"), g);
        }
        if bits & 128 != 0 {
            // a folder is no part, whatever it is called
            let d = join(dir, &format!("{name}_007{}", if bits & 3 != 0 { ".wz" } else { "" }));
            disk::sim_free(|| std::fs::create_dir_all(d).unwrap());
        }
    }
}
#[derive(Clone)]
struct Call {
    base: bool,
    path: String,
    version: Option<WzMapleVersion>,
}
impl Call {
    fn load(&self) -> Result<WzNodeArc, std::io::Error> {
        count(C_OPEN);
        if self.base {
            resolve_base(&self.path, self.version)
        } else if self.version.is_some() {
            resolve_root_wz_file_dir_full(&self.path, self.version, None, None, None)
        } else {
            resolve_root_wz_file_dir(&self.path, None)
        }
    }
}
struct Ctx {
    call: Call,
    expect: M,
    clash: bool,
    files: Vec<FileW>,
    needed: Vec<usize>,
    first: Mutex<Option<String>>,
}
/// everything a tree shows, in one text
fn print(n: &WzNodeArc, d: usize, out: &mut String) {
    let _ = parse(n);
    let s = snap(n);
    out.push_str(&format!("{d} {} {}\n", s.name, kind_name(&s.obj)));
    if let wz_reader::WzObjectType::Value(wz_reader::property::WzValue::Int(x)) = s.obj {
        out.push_str(&x.to_string());
    }
    for (k, x) in &s.kids {
        out.push_str(k);
        print(x, d + 1, out);
    }
}
impl Ctx {
    fn judge(&self, n: &WzNodeArc, how: &str) {
        if self.clash {
            // which of two images of one name is taken is not said, but it is always the same
            let mut t = String::new();
            print(n, 0, &mut t);
            let mut g = self.first.lock().unwrap();
            match &*g {
                None => *g = Some(t),
                Some(f) if *f != t => {
                    drop(g);
                    violate("order", &format!("{}: another tree than before{how}", self.call.path));
                }
                _ => count(C_OKCHECK),
            }
            return;
        }
        must_match("tree", &format!("{}{how}", self.call.path), n, &self.expect, FULL);
    }
    fn order(&self, o: &Op) {
        disk::with(|d| {
            d.order = if o.a & 7 == 0 { None } else { Some(o.a) };
            d.unknown_type = o.b & 3 == 0;
        });
    }
    fn good(&self, how: &str) {
        match guard("resolve", || self.call.load()) {
            Ok(Ok(n)) => self.judge(&n, how),
            Ok(Err(e)) => violate("load", &format!("{}: loading intact files fails{how}: {e}", self.call.path)),
            Err(_) => {}
        }
    }
    fn bad(&self, what: &str, must_fail: bool) {
        match guard("resolve", || self.call.load()) {
            Ok(Ok(_)) if must_fail => violate("silent", &format!("{}: loads although {what}", self.call.path)),
            Ok(Ok(n)) => self.judge(&n, &format!(" although {what}")),
            Ok(Err(e)) => {
                count(C_ERR);
                let _ = e.to_string();
                count(C_OKCHECK);
            }
            Err(_) => {}
        }
    }
}
pub fn run(p: &Plan) {
    let mut rng = Rng::new(p.knob("wseed") as u64);
    let k = |n: &str| p.knob(n) as u64;
    let pack = make_pack(k("pack"), &mut rng);
    let iv = if k("pack") == 2 { BMS } else { REGIONS[k("region") as usize % 3] };
    let shape = Shape { kids: 3, depth: 1, big: 30, side: 3, canvas: 60, sound: 60, str_: 200, ..Default::default() };
    let mut mk = Make { pack, iv, shape, parts: k("parts"), clash: k("clash") != 0, rng: &mut rng, files: vec![], needed: vec![] };
    let top = if k("cwd") != 0 { "" } else { "data" };
    let (expect, path, base);
    if k("layout") == 2 {
        let d = join(top, "T0");
        expect = mk.folder(&d, "T0", k("level"));
        mk.junk(&d, "T0", k("junk"));
        path = join(&d, "T0.wz");
        base = false;
    } else {
        let nested = k("layout") == 0;
        let bdir = if nested { join(top, "Base") } else { top.to_string() };
        let tops: Vec<String> = (0..k("tops")).map(|i| format!("T{i}")).collect();
        let mut b = mk.content("Base", "b", &tops);
        // the folders' contents are their own
        b = mk.file(&bdir, b);
        for t in &tops {
            let as_folder = nested || mk.rng.chance(1, 2);
            let m = match mk.rng.below(8) {
                0 => continue,
                _ if as_folder => mk.folder(&join(top, t), t, k("level")),
                _ => mk.folder(top, t, 0),
            };
            *b.kids.iter_mut().find(|k| k.name == *t).unwrap() = m;
        }
        mk.junk(top, "T0", k("junk"));
        mk.junk(&bdir, "Base", k("junk") >> 3);
        expect = b;
        path = join(&bdir, "Base.wz");
        base = true;
    }
    let version = if k("version") == 0 {
        None
    } else {
        Some(if iv == GMS {
            WzMapleVersion::GMS
        } else if iv == EMS {
            WzMapleVersion::EMS
        } else {
            WzMapleVersion::BMS
        })
    };
    let Make { files, needed, .. } = mk;
    let c = Arc::new(Ctx { call: Call { base, path, version }, expect, clash: k("clash") != 0, files, needed, first: Default::default() });
    {
        let c = c.clone();
        on_thread("first", move || c.good(""));
    }
    let c2 = c.clone();
    threads(p, move |_, o| {
        let c = &c2;
        c.order(o);
        count(C_LISTING);
        match o.k.as_str() {
            "load" => c.good(" in another listing order"),
            "fault" => {
                disk::arm(vec![]);
                let n = c.call.load();
                let (counts, _) = disk::disarm();
                if n.is_err() {
                    violate("load", "loading intact files fails");
                }
                drop(n);
                // the calls of one kind, weighted by how many there are
                let total: u64 = counts[..5].iter().sum();
                let mut x = o.c % total.max(1);
                let mut call = 0;
                while call < 4 && x >= counts[call] {
                    x -= counts[call];
                    call += 1;
                }
                let errno = [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::ENOTDIR, libc::EINTR][(o.b >> 3) as usize % 6];
                let held = disk::held();
                let mut hits = vec![Hit { call, nth: x, errno, on: o.a & 16 != 0 && errno != libc::EINTR, ..Default::default() }];
                if o.a & 32 != 0 {
                    // whatever it tries instead has its own trouble: reads that stop short, are interrupted or fail
                    let mut g = Rng::new(o.a ^ o.c);
                    match g.below(4) {
                        0 => hits.push(Hit { call: disk::READ, short: *g.pick(&[1, 7, 100, 700]), nth: 0, errno: 0, on: g.chance(2, 3) }),
                        1 => hits.push(Hit { call: disk::READ, errno: *g.pick(&[libc::EIO, libc::EINTR]), nth: g.below(3), ..Default::default() }),
                        2 => {
                            let call = g.below(5) as usize;
                            hits.push(Hit { call, nth: g.below(counts[call].max(1)), errno: libc::EIO, ..Default::default() });
                        }
                        _ => hits.push(Hit { call: disk::READ, short: 1 + g.below(2000), nth: g.below(2), errno: 0, on: false }),
                    }
                }
                disk::arm(hits);
                c.bad(&format!("{} number {x} fails with errno {errno}", disk::NAMES[call]), false);
                disk::disarm();
                if disk::held() != held {
                    violate("held", &format!("(descriptors, mappings) {:?} after a failed load, before {held:?}", disk::held()));
                }
                c.good(" after a failure");
            }
            "bad" => {
                let f = &c.files[c.needed[o.b as usize % c.needed.len()]];
                let d: Vec<u8> = match o.c % 4 {
                    0 => vec![],
                    1 => b"PKG1".to_vec(),
                    2 => vec![0; f.bytes.len()],
                    _ => f.bytes[..f.lay.data_start.min(f.bytes.len())].to_vec(),
                };
                count(C_TRUNC);
                disk::put(&f.path, &d);
                c.bad(&format!("{} is broken (kind {})", f.path, o.c % 4), true);
                disk::put(&f.path, &f.bytes);
                c.good(" after a file was restored");
            }
            "odd" => {
                let f = &c.files[o.b as usize % c.files.len()];
                let dir = std::path::Path::new(std::ffi::OsStr::from_bytes(b"x\xffy"));
                let file = dir.join(std::ffi::OsStr::from_bytes(if o.c & 8 != 0 { b"z\xfe.wz" } else { b"z.wz" }));
                disk::sim_free(|| {
                    std::fs::create_dir_all(dir).unwrap();
                    std::fs::write(&file, &f.bytes).unwrap();
                });
                let path = match o.c % 8 {
                    0 => "".into(),
                    1 => "/".into(),
                    2 => "..".into(),
                    3 => dir.to_path_buf(),
                    4 => dir.join("missing.wz"),
                    _ => file.clone(),
                };
                let whole = path == file;
                count(C_OPEN);
                let _ = guard("from_img_file", || wz_reader::WzNode::from_img_file(&path, None, None).is_ok());
                let _ = guard("from_ms_file", || wz_reader::WzNode::from_ms_file(&path, None).is_ok());
                if let Ok(r) = guard("from_wz_file", || wz_reader::WzNode::from_wz_file(&path, None)) {
                    match r {
                        Ok(n) if whole => {
                            let n = n.into_lock();
                            if let Err(e) = parse(&n) {
                                violate("odd", &format!("an archive with an odd name does not parse: {e}"));
                            }
                            let m = M { name: snap(&n).name.to_string(), ..f.root.clone() };
                            must_match("odd", "an archive with an odd name", &n, &m, FULL);
                        }
                        Ok(_) => violate("odd", &format!("{path:?} opens as an archive")),
                        Err(e) if whole => violate("odd", &format!("an archive with an odd name does not open: {e}")),
                        Err(_) => count(C_ERR),
                    }
                }
                let _ = guard("resolve_base", || resolve_base(&path, None).is_ok());
                if let Ok(r) = guard("resolve", || resolve_root_wz_file_dir(&path, None)) {
                    match r {
                        Err(e) if whole => violate("odd", &format!("a folder with an odd name does not load: {e}")),
                        _ => count(C_OKCHECK),
                    }
                }
                disk::sim_free(|| std::fs::remove_dir_all(dir).unwrap());
            }
            _ => {}
        }
    });
    disk::with(|d| {
        d.order = None;
        d.unknown_type = false;
    });
}
