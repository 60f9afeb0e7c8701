//! Exporting a sound writes exactly its bytes, or fails.
use crate::disk::{self, Hit};
use crate::gen::*;
use crate::model;
use crate::run::*;
use crate::world::*;
use simstd::sim::{self, Rng};
use std::io::{Error, ErrorKind, Seek, SeekFrom, Write};
use std::path::PathBuf;
use std::sync::Mutex;
use wz_reader::property::{WzSound, WzSoundType, WzSubProperty};
use wz_reader::{WzNodeArc, WzObjectType};

pub fn plan(p: &mut Plan, rng: &mut Rng) {
    p.set("form", *rng.pick(&[0, 1, 2, 3, 4, 5, 6]));
    p.set("region", rng.below(4) as i64);
    p.set("seed", (rng.next() >> 20) as i64);
    p.set("sounds", 1 + rng.below(6) as i64);
    // which kinds of trouble the writes meet
    p.set("calm", rng.chance(1, 6) as i64);
    for _ in 0..1 + rng.below(3) {
        let n = 2 + rng.below(6);
        p.threads.push(
            (0..n)
                .map(|_| {
                    let k = match rng.below(12) {
                        0..=3 => "save",
                        4..=7 => "to",
                        8 => "chain",
                        9 => "buffer",
                        _ => *rng.pick(&["unparse", "parse", "drop", "clone"]),
                    };
                    op(k, rng.next() >> 32, rng.next() >> 24, rng.next() >> 32)
                })
                .collect(),
        );
    }
}
fn size(rng: &mut Rng) -> usize {
    let x = *rng.pick(&[0usize, 1, 2, 43, 44, 45, 100, 511, 512, 513, 1023, 1024, 2048, 4095, 4096, 4097, 8148, 8191, 8192, 8193, 16384, 20000, 32768, 65535, 65536, 65537, 131072, 300000]);
    match rng.below(4) {
        0 => rng.below(x as u64 + 1) as usize,
        1 => x + rng.below(50) as usize,
        _ => x,
    }
}
/// what a single write call, or flush, does
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Full,
    Short(usize),
    Again,
    Zero,
    Fail(i32),
}
/// the trouble a sequence of writes meets, drawn from a seed
fn script(calm: bool, len: usize, r: &mut Rng) -> Vec<Act> {
    if calm {
        return vec![];
    }
    let style = r.below(6);
    let n = match style {
        0 => 0,
        1 => 1 + r.below(2),
        _ => 1 + r.below(12),
    };
    let mut v: Vec<Act> = (0..n)
        .map(|_| match r.below(8) {
            0..=3 => Act::Short(match r.below(4) {
                0 => 1,
                1 => 1 + r.below(44) as usize,
                2 => 1 + r.below(len as u64 + 1) as usize,
                _ => 4096,
            }),
            4 | 5 => Act::Again,
            6 => Act::Full,
            _ => Act::Short(len.max(2) - 1),
        })
        .collect();
    match style {
        0..=2 => {}
        3 => v.insert(r.below(v.len() as u64 + 1) as usize, Act::Zero),
        _ => {
            let e = *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, libc::EPIPE, libc::ETIMEDOUT]);
            v.insert(r.below(v.len() as u64 + 1) as usize, Act::Fail(e));
        }
    }
    v
}
struct W {
    data: Vec<u8>,
    pos: usize,
    acts: Vec<Act>,
    next: usize,
    /// errors handed out that are no interruptions
    failed: u32,
    zeros: u32,
    flush_fails: bool,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sim::point(14, 0);
        let mut n = b.len();
        if n > 0 {
            let a = self.acts.get(self.next).copied().unwrap_or(Act::Full);
            self.next += 1;
            match a {
                Act::Full => {}
                Act::Short(k) => {
                    if k < n {
                        count(C_SHORT);
                    }
                    n = n.min(k.max(1))
                }
                Act::Again => {
                    count(C_EINTR);
                    return Err(Error::from(ErrorKind::Interrupted));
                }
                Act::Zero => {
                    self.zeros += 1;
                    return Ok(0);
                }
                Act::Fail(e) => {
                    count(C_WERR);
                    self.failed += 1;
                    return Err(Error::from_raw_os_error(e));
                }
            }
        }
        let end = (self.pos + n).max(self.data.len());
        self.data.resize(end, 0);
        self.data[self.pos..self.pos + n].copy_from_slice(&b[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        sim::point(14, 1);
        if self.flush_fails {
            count(C_WERR);
            self.failed += 1;
            return Err(Error::from_raw_os_error(libc::EIO));
        }
        Ok(())
    }
}
impl Seek for W {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.data.len() as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if n < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}
struct Item {
    path: String,
    node: WzNodeArc,
    image: WzNodeArc,
    bytes: Vec<u8>,
    kind: WzSoundType,
}
fn mismatch(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("{} bytes, stored are {}, first difference at byte {at}", got.len(), want.len())
}
fn with_sound<R>(it: &Item, own: bool, f: impl FnOnce(&WzSound) -> R) -> R {
    fn get(o: &WzObjectType) -> Option<&WzSound> {
        match o {
            WzObjectType::Property(WzSubProperty::Sound(s)) => Some(s),
            _ => None,
        }
    }
    if own {
        let o = snap(&it.node).obj;
        return f(get(&o).unwrap_or_else(|| violate("sound", &format!("{:?} is no sound any more", it.path))));
    }
    rd(&it.node, |g| f(get(&g.object_type).unwrap_or_else(|| violate("sound", &format!("{:?} is no sound any more", it.path)))))
}
/// one export to a writer: where it starts, what it meets, what must be there afterwards
fn export(it: &Item, s: &WzSound, w: &mut W) -> bool {
    let (before, start) = (w.data.clone(), w.pos);
    let (f0, z0) = (w.failed, w.zeros);
    let r = s.write_to(w);
    let n = match &r {
        Ok(()) => it.bytes.len(),
        Err(_) => w.data.len().max(w.pos).min(start + it.bytes.len()).saturating_sub(start).min(w.pos.saturating_sub(start)),
    };
    let mut want = before.clone();
    want.resize(want.len().max(start + n), 0);
    want[start..start + n].copy_from_slice(&it.bytes[..n]);
    let how = format!("{:?} written at {start} of a writer of {} bytes", it.path, before.len());
    count(C_OKCHECK);
    match r {
        Ok(()) => {
            if w.failed > f0 {
                violate("hidden-failure", &format!("{how}: the writer reported a failure, the export success"));
            }
            if w.data != want {
                violate("wrong-bytes", &format!("{how}: success, but {}", mismatch(&w.data, &want)));
            }
            if w.pos != start + n {
                violate("wrong-bytes", &format!("{how}: success, but the writer stands at {} instead of {}", w.pos, start + n));
            }
            true
        }
        Err(e) => {
            count(C_ERR);
            if w.failed == f0 && w.zeros == z0 {
                violate("false-failure", &format!("{how}: short writes and interruptions only, the export failed: {e}"));
            }
            if w.data != want {
                violate("no-prefix", &format!("{how}: failed, and what was written is no prefix: {}", mismatch(&w.data, &want)));
            }
            false
        }
    }
}
fn writer(len: usize, acts: Vec<Act>, r: &mut Rng) -> W {
    let n = if r.chance(1, 2) { 0 } else { r.below(2 * len as u64 + 100) as usize };
    let data = model::bytes(n as u64, r);
    let pos = match r.below(3) {
        0 => 0,
        1 => n,
        _ => r.below(n as u64 + 1) as usize,
    };
    W { data, pos, acts, next: 0, failed: 0, zeros: 0, flush_fails: r.chance(1, 4) }
}
fn listing(dir: &str) -> Vec<String> {
    disk::sim_free(|| {
        let mut v: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
        v.sort();
        v
    })
}
fn read(path: &str) -> Option<Vec<u8>> {
    disk::sim_free(|| std::fs::read(path).ok())
}
fn save(it: &Item, s: &WzSound, dir: &str, calm: bool, r: &mut Rng) {
    let name = *r.pick(&["a", "b", "a.mp3", "c.d", "e.wav", "x.bin", "f.g.h"]);
    let asked = PathBuf::from(join(dir, name));
    let target = match it.kind {
        WzSoundType::Wav => asked.with_extension("wav"),
        WzSoundType::Mp3 => asked.with_extension("mp3"),
        WzSoundType::Binary => asked.clone(),
    };
    let target = target.to_str().unwrap().to_string();
    for attempt in 0..3 {
        let before = read(&target);
        let files = listing(dir);
        let mut hits: Vec<Hit> = vec![];
        if attempt < 2 {
            for (i, a) in script(calm, it.bytes.len(), r).iter().enumerate() {
                let (errno, short) = match a {
                    Act::Full => continue,
                    Act::Short(n) => (0, *n as u64),
                    Act::Again => (libc::EINTR, 0),
                    Act::Zero => (0, 0),
                    Act::Fail(e) => (*e, 0),
                };
                hits.push(Hit { call: disk::WRITE, nth: i as u64, errno, short, on: false });
            }
            if !calm && r.chance(1, 6) {
                let e = *r.pick(&[libc::EINTR, libc::EMFILE, libc::ENOSPC, libc::EACCES, libc::EROFS]);
                hits.push(Hit { call: disk::OPEN, nth: 0, errno: e, ..Default::default() });
            }
        }
        disk::mine(hits);
        let res = s.save(asked.clone());
        let (_, fired) = disk::mine_done();
        let real = fired.iter().any(|h| h.errno != 0 && h.errno != libc::EINTR);
        let zero = fired.iter().any(|h| h.errno == 0 && h.short == 0);
        for h in &fired {
            count(if h.errno == libc::EINTR {
                C_EINTR
            } else if h.errno != 0 {
                C_WERR
            } else {
                C_SHORT
            });
        }
        let after = read(&target);
        let how = format!("{:?} saved as {name:?}", it.path);
        count(C_OKCHECK);
        match res {
            Ok(()) => {
                if real {
                    violate("hidden-failure", &format!("{how}: the system reported {fired:?}, the export success"));
                }
                match after {
                    None => violate("wrong-bytes", &format!("{how}: success, but there is no file {target}, only {:?}", listing(dir))),
                    Some(b) if b != it.bytes => violate("wrong-bytes", &format!("{how}: success under {fired:?}, but {}", mismatch(&b, &it.bytes))),
                    _ => {}
                }
                let new: Vec<String> = listing(dir).into_iter().filter(|n| !files.contains(n) && join(dir, n) != target).collect();
                if !new.is_empty() {
                    violate("wrong-bytes", &format!("{how}: also left {new:?} behind"));
                }
                return;
            }
            Err(e) => {
                count(C_ERR);
                if !real && !zero {
                    violate("false-failure", &format!("{how}: {fired:?} only, the export failed: {e}"));
                }
                if after != before && !after.as_ref().is_some_and(|b| it.bytes.starts_with(b)) {
                    violate("no-prefix", &format!("{how}: failed under {fired:?}, and the file is no prefix of the sound"));
                }
                count(C_RETRY);
            }
        }
    }
    violate("no-recovery", &format!("{:?}: saving fails although nothing is wrong any more", it.path));
}
pub fn run(p: &Plan) {
    let mut rng = Rng::new(p.knob("seed") as u64);
    let mut groups: Vec<M> = vec![];
    for i in 0..p.knob("sounds") {
        let data = model::bytes(size(&mut rng) as u64, &mut rng);
        let s = model::sound(&model::Shape { big: 4, ..shape_of(p) }, &mut rng);
        let V::Sound(mut s) = s else { unreachable!() };
        if s.dur == 1000 && s.header.len() == 0x46 && rng.chance(3, 4) {
            s.header[0x38..0x3c].copy_from_slice(&(data.len() as u32).to_le_bytes());
        }
        s.data = data;
        let m = M::new(&format!("s{i}"), V::Sound(s));
        if rng.chance(1, 3) {
            groups.push(M::with(&format!("g{i}"), V::Prop, vec![m]));
        } else {
            groups.push(m);
        }
    }
    let img = M::with("img.img", V::Img, groups);
    let (form, iv) = (p.knob("form"), REGIONS[p.knob("region") as usize]);
    let f = match form {
        3 => wrap_img("", img, iv, &mut rng),
        4 | 5 => wrap_ms("", M::with("Snd", V::Dir, vec![img]), form == 5, &mut rng),
        _ => {
            let iv = if iv == CUSTOM { GMS } else { iv };
            wrap_wz("", M::with("Snd", V::Dir, vec![img]), iv, make_pack(form as u64, &mut rng), &mut rng)
        }
    };
    f.write();
    let root = f.open_arc();
    if f.kind != Kind::Img {
        must_match("load", &f.path, &root, &f.root, LISTING);
    }
    let mut items: Vec<Item> = vec![];
    for ip in f.image_paths() {
        let image = if ip.is_empty() { root.clone() } else { rd(&root, |g| g.at_path(&ip)).unwrap_or_else(|| violate("load", "the image is not there")) };
        let m = f.model_at(&ip);
        for (path, node) in must_match("load", &f.path, &image, m, LOAD) {
            let m = if path.is_empty() { m } else { m.at(&path).unwrap() };
            if let V::Sound(s) = &m.v {
                items.push(Item { path, node, image: image.clone(), bytes: sound_bytes(s), kind: sound_type(s) });
            }
        }
    }
    if items.is_empty() {
        return;
    }
    let calm = p.knob("calm") == 1;
    for t in 0..p.threads.len() {
        disk::sim_free(|| std::fs::create_dir_all(format!("out{t}")).unwrap());
    }
    let hold = Mutex::new(Some(root));
    threads(p, move |tid, o| {
        let it = &items[o.a as usize % items.len()];
        let mut r = Rng::new(o.b ^ (o.c << 7));
        let own = r.chance(1, 3);
        match o.k.as_str() {
            "save" => with_sound(it, own, |s| save(it, s, &format!("out{tid}"), calm, &mut r)),
            "to" => with_sound(it, own, |s| {
                for attempt in 0..3 {
                    let acts = if attempt == 2 { vec![] } else { script(calm, it.bytes.len(), &mut r) };
                    let mut w = writer(it.bytes.len(), acts, &mut r);
                    w.flush_fails &= attempt < 2;
                    if export(it, s, &mut w) {
                        return;
                    }
                    count(C_RETRY);
                }
                violate("no-recovery", &format!("{:?}: writing fails although nothing is wrong any more", it.path));
            }),
            // several sounds, one after the other, into one writer
            "chain" => {
                let mut w = writer(100, script(calm, it.bytes.len(), &mut r), &mut r);
                for i in 0..3 {
                    let it = &items[(o.a as usize + i) % items.len()];
                    if !with_sound(it, own, |s| export(it, s, &mut w)) {
                        break;
                    }
                }
            }
            "buffer" => {
                let b = with_sound(it, own, |s| s.get_buffer());
                count(C_OKCHECK);
                if b != it.bytes {
                    violate("wrong-bytes", &format!("{:?}: get_buffer gives {}", it.path, mismatch(&b, &it.bytes)));
                }
            }
            "unparse" => {
                count(C_UNPARSE);
                wr(&it.image, |g| g.unparse())
            }
            "parse" => {
                if let Err(e) = parse(&it.image) {
                    violate("load", &format!("the image does not load: {e}"));
                }
            }
            "drop" => {
                count(C_DROP);
                drop(hold.lock().unwrap_or_else(|e| e.into_inner()).take());
            }
            _ => {
                let s = with_sound(it, false, |s| s.clone());
                let mut v = vec![];
                let mut w = std::io::Cursor::new(&mut v);
                if let Err(e) = s.write_to(&mut w) {
                    violate("false-failure", &format!("{:?}: writing a copy to memory failed: {e}", it.path));
                }
                count(C_OKCHECK);
                if v != it.bytes {
                    violate("wrong-bytes", &format!("{:?}: a copy writes {}", it.path, mismatch(&v, &it.bytes)));
                }
            }
        }
    });
    let left = disk::with(|d| d.write_fds.len());
    if left != 0 {
        violate("left-open", &format!("{left} files written to are still open"));
    }
}
