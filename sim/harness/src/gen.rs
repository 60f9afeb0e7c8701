//! Independent writer for the file formats, and the model tree that serves as oracle.
use aes::cipher::{generic_array::GenericArray, BlockEncrypt, KeyInit};
use simstd::sim::Rng;
use std::collections::HashMap;
use std::io::Write;

pub const GMS: [u8; 4] = [0x4D, 0x23, 0xC7, 0x2B];
pub const EMS: [u8; 4] = [0xB9, 0x7D, 0x63, 0xE9];
pub const BMS: [u8; 4] = [0; 4];

#[derive(Clone, Debug, PartialEq)]
pub struct Canvas {
    pub w: u32,
    pub h: u32,
    pub fmt: u32,
    pub scale: u8,
    /// stored as key-encrypted blocks instead of a zlib stream
    pub listed: bool,
    pub level: u32,
    pub blocks: Vec<usize>,
    pub raw: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snd {
    pub dur: i32,
    pub header: Vec<u8>,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Dir,
    Img,
    Null,
    Short(i16),
    Int(i32),
    Long(i64),
    Float(f32),
    Double(f64),
    Str(String),
    Vec2(i32, i32),
    Uol(String),
    Prop,
    Canvas(Box<Canvas>),
    Convex,
    Sound(Box<Snd>),
    Raw(Vec<u8>),
    Video(Vec<u8>),
    Lua(String),
    Text(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub name: String,
    pub v: V,
    pub kids: Vec<M>,
}
impl M {
    pub fn new(name: &str, v: V) -> M {
        M { name: name.into(), v, kids: vec![] }
    }
    pub fn with(name: &str, v: V, kids: Vec<M>) -> M {
        M { name: name.into(), v, kids }
    }
    pub fn kid(&self, n: &str) -> Option<&M> {
        self.kids.iter().find(|k| k.name == n)
    }
    pub fn at(&self, path: &str) -> Option<&M> {
        let mut m = self;
        for p in path.split('/') {
            m = m.kid(p)?;
        }
        Some(m)
    }
    pub fn at_mut(&mut self, path: &str) -> Option<&mut M> {
        let mut m = self;
        for p in path.split('/') {
            m = m.kids.iter_mut().find(|k| k.name == p)?;
        }
        Some(m)
    }
    /// every path below this node, parents first
    pub fn paths(&self) -> Vec<String> {
        fn go(m: &M, pre: &str, out: &mut Vec<String>) {
            for k in &m.kids {
                let p = if pre.is_empty() { k.name.clone() } else { format!("{}/{}", pre, k.name) };
                out.push(p.clone());
                go(k, &p, out);
            }
        }
        let mut o = vec![];
        go(self, "", &mut o);
        o
    }
    pub fn paths_where(&self, f: impl Fn(&M) -> bool) -> Vec<String> {
        self.paths().into_iter().filter(|p| f(self.at(p).unwrap())).collect()
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
}

thread_local! { static KS: std::cell::RefCell<HashMap<[u8;4],Vec<u8>>> = Default::default(); }
/// the key stream of a region
pub fn keystream(iv: [u8; 4], n: usize) -> Vec<u8> {
    if iv == BMS {
        return vec![0; n];
    }
    KS.with(|k| {
        let mut k = k.borrow_mut();
        let v = k.entry(iv).or_default();
        if v.len() < n {
            let mut key = [0u8; 32];
            for (i, b) in [0x13u8, 0x08, 0x06, 0xB4, 0x1B, 0x0F, 0x33, 0x52].iter().enumerate() {
                key[i * 4] = *b;
            }
            let aes = aes::Aes256::new(GenericArray::from_slice(&key));
            while v.len() < n + 64 {
                let mut b = [0u8; 16];
                if v.is_empty() {
                    for (i, x) in b.iter_mut().enumerate() {
                        *x = iv[i % 4];
                    }
                } else {
                    b.copy_from_slice(&v[v.len() - 16..]);
                }
                let mut g = GenericArray::clone_from_slice(&b);
                aes.encrypt_block(&mut g);
                v.extend_from_slice(&g);
            }
        }
        v[..n].to_vec()
    })
}

pub struct Out {
    pub b: Vec<u8>,
    iv: [u8; 4],
    pool: HashMap<String, usize>,
    rng: Rng,
    /// positions of counts, lengths, type bytes and references
    pub marks: Vec<usize>,
    /// (path of the value, position, length) of pixels, sounds, raw bytes and inline strings
    pub pay: Vec<(String, usize, usize)>,
    at: Vec<String>,
}
impl Out {
    pub fn new(iv: [u8; 4], rng: Rng) -> Out {
        Out { b: vec![], iv, pool: HashMap::new(), rng, marks: vec![], pay: vec![], at: vec![] }
    }
    fn mark(&mut self) {
        self.marks.push(self.b.len());
    }
    /// the next `n` bytes belong to the current value alone
    fn payload(&mut self, n: usize) {
        self.pay.push((self.at.join("/"), self.b.len(), n));
    }
    pub fn int(&mut self, v: i32) {
        self.mark();
        // the short form is optional for writers, the reader must take both
        if v > -128 && v <= 127 && !(self.rng.chance(1, 30)) {
            self.b.push(v as i8 as u8)
        } else {
            self.b.push(0x80);
            self.b.extend_from_slice(&v.to_le_bytes());
        }
    }
    pub fn int_long_form(&mut self, v: i32) {
        self.b.push(0x80);
        self.b.extend_from_slice(&v.to_le_bytes());
    }
    pub fn int64(&mut self, v: i64) {
        if v > -128 && v <= 127 {
            self.b.push(v as i8 as u8)
        } else {
            self.b.push(0x80);
            self.b.extend_from_slice(&v.to_le_bytes());
        }
    }
    pub fn str(&mut self, s: &str) {
        self.mark();
        if s.is_empty() {
            self.b.push(0);
            return;
        }
        if s.is_ascii() {
            let n = s.len();
            if n >= 128 {
                self.b.push(0x80);
                self.b.extend_from_slice(&(n as i32).to_le_bytes());
            } else {
                self.b.push((-(n as i32)) as i8 as u8);
            }
            let ks = keystream(self.iv, n);
            for (i, c) in s.bytes().enumerate() {
                self.b.push(c ^ (0xAAu8.wrapping_add(i as u8)) ^ ks[i]);
            }
        } else {
            let u: Vec<u16> = s.encode_utf16().collect();
            let n = u.len();
            if n >= 127 {
                self.b.push(127);
                self.b.extend_from_slice(&(n as i32).to_le_bytes());
            } else {
                self.b.push(n as u8);
            }
            let ks = keystream(self.iv, n * 2);
            for (i, c) in u.iter().enumerate() {
                let k = u16::from_le_bytes([ks[i * 2], ks[i * 2 + 1]]);
                let x = c ^ 0xAAAAu16.wrapping_add(i as u16) ^ k;
                self.b.extend_from_slice(&x.to_le_bytes());
            }
        }
    }
    /// string block inside an image (inline or back reference)
    fn block(&mut self, s: &str, inl: u8, off: u8) {
        self.mark();
        if let Some(o) = self.pool.get(s) {
            if self.rng.chance(2, 3) {
                self.b.push(off);
                self.b.extend_from_slice(&(*o as i32).to_le_bytes());
                return;
            }
        }
        self.b.push(inl);
        self.pool.insert(s.to_string(), self.b.len());
        self.str(s);
    }
    fn list(&mut self, kids: &[M]) {
        self.int(kids.len() as i32);
        for k in kids {
            self.block(&k.name, 0, 1);
            self.at.push(k.name.clone());
            self.mark();
            self.prop(k);
            self.at.pop();
        }
    }
    fn prop(&mut self, m: &M) {
        match &m.v {
            V::Null => self.b.push(0),
            V::Short(v) => {
                let t = if self.rng.chance(1, 2) { 2 } else { 11 };
                self.b.push(t);
                self.b.extend_from_slice(&v.to_le_bytes());
            }
            V::Int(v) => {
                let t = if self.rng.chance(1, 2) { 3 } else { 19 };
                self.b.push(t);
                self.int(*v);
            }
            V::Long(v) => {
                self.b.push(20);
                self.int64(*v);
            }
            V::Float(f) => {
                self.b.push(4);
                if f.fract() == 0.0 && (0.0..=127.0).contains(f) && f.is_sign_positive() && self.rng.chance(1, 2) {
                    self.b.push(*f as u8);
                } else {
                    self.b.push(0x80);
                    self.b.extend_from_slice(&f.to_le_bytes());
                }
            }
            V::Double(f) => {
                self.b.push(5);
                self.b.extend_from_slice(&f.to_le_bytes());
            }
            V::Str(s) => {
                self.b.push(8);
                self.block(s, 0, 1);
            }
            _ => {
                self.b.push(9);
                let p = self.b.len();
                self.mark();
                self.b.extend_from_slice(&[0; 4]);
                self.ext(m);
                let n = (self.b.len() - p - 4) as u32;
                self.b[p..p + 4].copy_from_slice(&n.to_le_bytes());
            }
        }
    }
    fn ext(&mut self, m: &M) {
        match &m.v {
            V::Prop => {
                self.block("Property", 0x73, 0x1B);
                self.b.extend_from_slice(&[0, 0]);
                self.list(&m.kids);
            }
            V::Canvas(c) => {
                self.block("Canvas", 0x73, 0x1B);
                self.b.push(0);
                if m.kids.is_empty() {
                    self.b.push(0);
                } else {
                    self.b.push(1);
                    self.b.extend_from_slice(&[0, 0]);
                    self.list(&m.kids);
                }
                self.int(c.w as i32);
                self.int(c.h as i32);
                self.int((c.fmt - c.scale as u32) as i32);
                self.b.push(c.scale);
                self.int(0);
                self.int(0);
                self.b.extend_from_slice(&[0, 0]);
                let d = canvas_bytes(c, self.iv);
                self.mark();
                self.b.extend_from_slice(&(d.len() as i32 + 1).to_le_bytes());
                self.b.push(0);
                self.mark();
                self.payload(d.len());
                self.b.extend_from_slice(&d);
            }
            V::Convex => {
                self.block("Shape2D#Convex2D", 0x73, 0x1B);
                self.int(m.kids.len() as i32);
                for (i, k) in m.kids.iter().enumerate() {
                    self.at.push(i.to_string());
                    self.ext(k);
                    self.at.pop();
                }
            }
            V::Vec2(x, y) => {
                self.block("Shape2D#Vector2D", 0x73, 0x1B);
                self.int(*x);
                self.int(*y);
            }
            V::Sound(s) => {
                self.block("Sound_DX8", 0x73, 0x1B);
                self.b.push(0);
                self.int(s.data.len() as i32);
                self.int(s.dur);
                self.mark();
                self.b.extend_from_slice(&s.header);
                self.payload(s.data.len());
                self.b.extend_from_slice(&s.data);
            }
            V::Uol(p) => {
                self.block("UOL", 0x73, 0x1B);
                self.b.push(0);
                self.block(p, 0, 1);
            }
            V::Raw(d) => {
                self.block("RawData", 0x73, 0x1B);
                if m.kids.is_empty() && self.rng.chance(1, 2) {
                    self.b.push(0);
                } else {
                    self.b.push(1);
                    if m.kids.is_empty() {
                        self.b.push(0);
                    } else {
                        self.b.push(1);
                        self.b.extend_from_slice(&[0, 0]);
                        self.list(&m.kids);
                    }
                }
                self.int(d.len() as i32);
                self.payload(d.len());
                self.b.extend_from_slice(d);
            }
            V::Video(d) => {
                self.block("Canvas#Video", 0x73, 0x1B);
                self.b.extend_from_slice(&[0, 0, 1]);
                self.int(d.len() as i32);
                self.payload(d.len());
                self.b.extend_from_slice(d);
            }
            o => panic!("not an extended value: {:?}", o),
        }
    }
}

pub fn canvas_bytes(c: &Canvas, iv: [u8; 4]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(c.level));
    e.write_all(&c.raw).unwrap();
    let z = e.finish().unwrap();
    if !c.listed {
        return z;
    }
    let mut out = vec![];
    let mut p = 0;
    let mut i = 0;
    while p < z.len() {
        let mut n = c.blocks.get(i).copied().unwrap_or(usize::MAX).min(z.len() - p).max(1);
        // a first block length that reads like a zlib header would be ambiguous
        if p == 0 && matches!(n & 0xffff, 0x9C78 | 0xDA78 | 0x0178 | 0x5E78) {
            n -= 1;
        }
        i += 1;
        out.extend_from_slice(&(n as i32).to_le_bytes());
        let ks = keystream(iv, n);
        out.extend(z[p..p + n].iter().zip(ks).map(|(a, b)| a ^ b));
        p += n;
    }
    out
}

/// bytes of one image (by the kind of its content)
pub fn image_bytes(m: &M, iv: [u8; 4], rng: Rng) -> Vec<u8> {
    image_out(m, iv, rng).b
}
pub fn image_out(m: &M, iv: [u8; 4], rng: Rng) -> Out {
    let mut o = Out::new(iv, rng);
    if m.name.ends_with(".lua") {
        if let Some(M { v: V::Lua(s), .. }) = m.kids.first() {
            o.b.push(1);
            o.int(s.len() as i32);
            // most scripts are stored under one fixed key, whatever the region; readers try that, then GMS, then none
            let looks = |iv: [u8; 4], enc: &[u8]| {
                let t: Vec<u8> = enc.iter().take(64).zip(keystream(iv, 64)).map(|(a, b)| a ^ b).collect();
                match std::str::from_utf8(&t) {
                    Ok(_) => true,
                    Err(e) => e.error_len().is_none(),
                }
            };
            let mut iv = *o.rng.pick(&[EMS, EMS, GMS, BMS]);
            let enc: Vec<u8> = s.bytes().zip(keystream(iv, s.len())).map(|(a, b)| a ^ b).collect();
            if iv != EMS && looks(EMS, &enc) || iv == BMS && looks(GMS, &enc) {
                iv = EMS;
            }
            let ks = keystream(iv, s.len());
            o.at.push("Script".into());
            o.payload(s.len());
            o.b.extend(s.bytes().zip(ks).map(|(a, b)| a ^ b));
            return o;
        }
    }
    if let Some(M { v: V::Text(d), name, .. }) = m.kids.first() {
        if name == "text.txt" {
            if !m.name.ends_with(".txt") {
                o.b.extend_from_slice(b"#Property");
            }
            o.b.extend_from_slice(d);
            return o;
        }
    }
    o.b.push(0x73);
    o.str("Property");
    o.b.extend_from_slice(&[0, 0]);
    o.list(&m.kids);
    o
}

/// where things are stored, for targeted damage
#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// (path of the image, offset, length)
    pub images: Vec<(String, usize, usize)>,
    /// (path of the directory, offset, length); "" is the root
    pub dirs: Vec<(String, usize, usize)>,
    pub data_start: usize,
    pub len: usize,
    /// positions of structural fields
    pub marks: Vec<usize>,
    /// (path of the value, position, length)
    pub pay: Vec<(String, usize, usize)>,
    /// (position of a masked offset, where it leads)
    pub refs: Vec<(usize, usize)>,
    /// what is taken off an offset before it is masked
    pub base: u32,
}
impl Layout {
    /// lead the `i`th offset elsewhere
    pub fn relink(&self, b: &mut [u8], i: usize, to: usize) -> usize {
        let (at, old) = self.refs[i];
        let e = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
        let e = e ^ (old as u32).wrapping_sub(self.base) ^ (to as u32).wrapping_sub(self.base);
        b[at..at + 4].copy_from_slice(&e.to_le_bytes());
        at
    }
    /// fields and payloads of an image stored at `pos`
    pub fn add_image(&mut self, path: &str, pos: usize, o: &Out) {
        self.marks.extend(o.marks.iter().map(|m| m + pos));
        self.pay.extend(o.pay.iter().map(|(p, a, n)| (if path.is_empty() { p.clone() } else { format!("{path}/{p}") }, a + pos, *n)));
    }
}

fn rotl(a: u32, n: u32) -> u32 {
    a.rotate_left(n & 31)
}
pub fn version_hash(v: i32) -> u32 {
    let mut h: u32 = 0;
    for c in v.to_string().bytes() {
        h = h.wrapping_mul(32).wrapping_add(c as u32).wrapping_add(1);
    }
    h
}
pub fn encver(v: i32) -> u8 {
    let h = version_hash(v).to_be_bytes();
    0xff ^ h[0] ^ h[1] ^ h[2] ^ h[3]
}
fn mask1(pos: usize, fstart: usize, hash: u32) -> u32 {
    let mut o = (pos as u32).wrapping_sub(fstart as u32) ^ 0xFFFF_FFFF;
    o = o.wrapping_mul(hash).wrapping_sub(0x581C_3F6D);
    rotl(o, o & 0x1F)
}

#[derive(Clone, Debug)]
pub enum Pack {
    /// version, whether the two-byte version check value is stored
    Pkg1 { ver: i32, enc: bool },
    Pkg2 { hash1: u64, hash2: u64 },
    /// the forms of 1196 to 1201, which have 32-bit hashes
    Old { ver: u32, hash1: u32, hash: u32 },
}
/// how the forms of 1196 to 1201 store their check value, offsets and first names
pub mod old {
    fn mix(mut x: u32) -> u32 {
        x = (x ^ (x >> 16)).wrapping_mul(0x7FEB_352D);
        x = (x ^ (x >> 15)).wrapping_mul(0x846C_A68B);
        x ^ (x >> 16)
    }
    fn mixed(h1: u32, h: u32) -> u32 {
        mix(h1 ^ h ^ 0x6D4C_3B2A) ^ 0x91E1_0DA5
    }
    const K: u32 = 0x1A2B_3C4D;
    pub fn hash2(ver: u32, h1: u32, h: u32) -> u32 {
        match ver {
            1196 => h1.rotate_left(7) ^ h,
            1197 => (h1 ^ h.wrapping_add(K)).rotate_left(h % 32) ^ h,
            1198 => !((h1 ^ h.wrapping_add(K)).rotate_left(h % 16 + h1 % 16) ^ h ^ h1),
            _ => {
                let m = mixed(h1, h);
                let base = h1 ^ (m & 0xffff).wrapping_add(h).wrapping_add(K);
                let x = base.rotate_left((m ^ h) % 16 + h1 % 16) ^ (h1 ^ h).wrapping_add(m);
                if ver == 1200 {
                    x ^ 0x2A2C_818B
                } else {
                    !x
                }
            }
        }
    }
    /// Where nothing is rotated, some bits of the hash do not show in the check value: those bits.
    pub fn free_bits(ver: u32, h1: u32, h: u32) -> Vec<u32> {
        let (turn, low) = match ver {
            1197 => (h % 32, 5),
            1198 => (h % 16 + h1 % 16, 4),
            _ => (1, 0),
        };
        if turn != 0 {
            return vec![];
        }
        let carry = h.wrapping_add(K) ^ h ^ K;
        (low..32).filter(|i| *i == 31 || (carry ^ K) >> i & 1 == 0).collect()
    }
    pub fn target(ver: u32, h1: u32, h: u32, at: usize, fstart: usize, e: u32) -> usize {
        let o = offset(ver, h1, h, at, fstart, fstart);
        ((o ^ e).wrapping_add(fstart as u32)) as usize
    }
    pub fn offset(ver: u32, h1: u32, h: u32, at: usize, fstart: usize, to: usize) -> u32 {
        let m = mixed(h1, h);
        let by = match ver {
            1196 => h,
            1197 | 1198 => h ^ h1,
            _ => (h ^ h1).wrapping_add(m ^ 0xA7E3_C093),
        };
        let mut o = (!(at as u32 - fstart as u32)).wrapping_mul(by).wrapping_sub(0x581C_3F6D) ^ h1.wrapping_mul(0x0101_0101);
        let mut turn = h ^ h1;
        if ver > 1198 {
            o ^= m.wrapping_mul(0x9E37_79B9);
            turn ^= m;
        }
        let e = o.rotate_left(turn % 32) ^ (to as u32 - fstart as u32);
        if ver == 1196 {
            e
        } else {
            !e
        }
    }
    /// key of the first name in a directory; None where it is stored as any other name
    pub fn key(ver: u32, h1: u32, h: u32) -> Option<u32> {
        match ver {
            1196 | 1197 => None,
            1198 => Some(0xDEAD_BEEF),
            _ => Some(mix(mix(h1 ^ h ^ 0x6D4C_3B2A) ^ 0x4F4C_B34A)),
        }
    }
    /// does the first name of the archive look like no other kind of name?
    pub fn name_ok(ver: u32, h1: u32, h: u32, name: &str) -> bool {
        let Some(k) = key(ver, h1, h) else { return true };
        let n = name.len();
        let b: Vec<u8> = name.encode_utf16().flat_map(|x| x.to_le_bytes()).zip(keys(k).into_iter().cycle()).map(|(x, y)| x ^ y).collect();
        let ascii = |iv| (0..n).zip(super::keystream(iv, n)).all(|(i, k)| b[i] ^ 0xAAu8.wrapping_add(i as u8) ^ k < 0x80);
        let d = keys(0xDEAD_BEEF);
        let like_1198 = (0..2 * n).all(|i| (b[i] ^ d[i % 8]) < if i % 2 == 0 { 0x80 } else { 1 });
        n <= 100 && ![super::BMS, super::GMS, super::EMS].into_iter().any(ascii) && (ver == 1198 || !like_1198)
    }
    pub fn keys(k: u32) -> [u8; 8] {
        let k = k.to_le_bytes();
        [k[0], k[1], k[1], k[2], k[2], k[3], k[3], 0]
    }
}

struct DirBlock {
    marks: Vec<usize>,
    path: String,
    b: Vec<u8>,
    /// (position of the offset field, child path)
    fix: Vec<(usize, String)>,
    /// (position of the i32, name block)
    strs: Vec<(usize, Vec<u8>)>,
}

/// is a first name of this length recognised as `iv` and not as a region tried earlier (BMS, GMS, EMS)?
pub fn name_unambiguous(len: usize, iv: [u8; 4]) -> bool {
    let hi = |a: [u8; 4], b: [u8; 4]| keystream(a, len).iter().zip(keystream(b, len)).any(|(x, y)| (x ^ y) >= 0x80);
    match iv {
        BMS => true,
        GMS => hi(GMS, BMS),
        EMS => hi(EMS, BMS) && hi(EMS, GMS),
        _ => hi(iv, BMS) && hi(iv, GMS) && hi(iv, EMS),
    }
}

/// encode one archive; `root` is a directory-like model node
pub fn archive(root: &M, iv: [u8; 4], pack: &Pack, rng: &mut Rng) -> (Vec<u8>, Layout) {
    loop {
        if let Some(x) = archive_once(root, iv, pack, rng) {
            return x;
        }
    }
}
pub fn archive_once(root: &M, iv: [u8; 4], pack: &Pack, rng: &mut Rng) -> Option<(Vec<u8>, Layout)> {
    let mut r = rng.fork();
    try_archive(root, iv, pack, &mut r)
}

fn try_archive(root: &M, iv: [u8; 4], pack: &Pack, rng: &mut Rng) -> Option<(Vec<u8>, Layout)> {
    let pkg2 = matches!(pack, Pack::Pkg2 { .. });
    let older = match pack {
        Pack::Old { ver, hash1, hash } => Some(old::key(*ver, *hash1, *hash).map(old::keys)),
        _ => None,
    };
    let iv = if pkg2 || older.is_some() { BMS } else { iv };
    let mut images: Vec<(String, Out)> = vec![];
    let mut dirs: Vec<DirBlock> = vec![];
    let mut sizes: HashMap<String, usize> = HashMap::new();
    let (h1, h) = match pack {
        Pack::Pkg2 { hash1, hash2 } => (*hash1, hash1 ^ hash2 ^ 0xABCD_EF01_2345_6789),
        _ => (0, 0),
    };
    let key = h1 ^ h ^ 0x66B5_7FEE_317F_D3DF;
    let k = key.to_le_bytes();
    let keys = [k[0], k[1], k[1], k[2], k[2], k[3], k[3], k[4]];

    fn join(a: &str, b: &str) -> String {
        if a.is_empty() {
            b.into()
        } else {
            format!("{a}/{b}")
        }
    }
    // children first, so sizes are known
    fn walk(
        m: &M,
        path: &str,
        iv: [u8; 4],
        pkg2: bool,
        cnt_mask: i64,
        keys: &[u8; 8],
        older: &Option<Option<[u8; 8]>>,
        rng: &mut Rng,
        images: &mut Vec<(String, Out)>,
        dirs: &mut Vec<DirBlock>,
        sizes: &mut HashMap<String, usize>,
    ) {
        let slot = dirs.len();
        dirs.push(DirBlock { marks: vec![], path: path.into(), b: vec![], fix: vec![], strs: vec![] });
        for c in &m.kids {
            let p = join(path, &c.name);
            if c.v == V::Dir {
                walk(c, &p, iv, pkg2, cnt_mask, keys, older, rng, images, dirs, sizes);
            } else {
                let r = rng.fork();
                let b = image_out(c, iv, r);
                sizes.insert(p.clone(), b.b.len());
                images.push((p, b));
            }
        }
        let mut o = Out::new(iv, rng.fork());
        let mut fix = vec![];
        let mut strs = vec![];
        if pkg2 {
            let low = rng.next() & 0xffff;
            let e = (((m.kids.len() as i64) << 16) | low as i64) ^ cnt_mask;
            o.b.push(0x80);
            o.b.extend_from_slice(&e.to_le_bytes());
            for (i, c) in m.kids.iter().enumerate() {
                o.b.push(if c.v == V::Dir { 3 } else { 4 });
                if i == 0 {
                    let u: Vec<u16> = c.name.encode_utf16().collect();
                    o.b.extend_from_slice(&(-(u.len() as i16)).to_le_bytes());
                    for (j, x) in u.iter().flat_map(|x| x.to_le_bytes()).enumerate() {
                        o.b.push(x ^ keys[j % 8]);
                    }
                } else {
                    o.str(&c.name);
                }
                o.int(sizes[&join(path, &c.name)] as i32);
                o.int(rng.next() as i32);
            }
            for c in &m.kids {
                fix.push((o.b.len(), join(path, &c.name)));
                o.b.extend_from_slice(&[0; 4]);
            }
        } else if older.is_some() && m.kids.is_empty() {
            // (nothing is stored for an empty directory, its entry leads to any count)
            sizes.insert(path.to_string(), 0);
            dirs[slot].b = vec![rng.below(128) as u8];
            return;
        } else if let Some(keys) = older {
            // the count says nothing; it stands before and after the entries
            let mut n = Out::new(iv, rng.fork());
            if rng.chance(1, 3) {
                n.b.push(5 + rng.below(123) as u8);
            } else {
                n.b.push(0x80);
                n.b.extend_from_slice(&((rng.next() as u32 >> 1) as i32).to_le_bytes());
            }
            o.b.extend_from_slice(&n.b);
            for (i, c) in m.kids.iter().enumerate() {
                o.b.push(if c.v == V::Dir { 3 } else { 4 });
                match keys {
                    Some(k) if i == 0 => {
                        let u: Vec<u16> = c.name.encode_utf16().collect();
                        o.b.push(-(u.len() as i8) as u8);
                        for (j, x) in u.iter().flat_map(|x| x.to_le_bytes()).enumerate() {
                            o.b.push(x ^ k[j % 8]);
                        }
                    }
                    _ => o.str(&c.name),
                }
                o.int(sizes[&join(path, &c.name)] as i32);
                o.int(rng.next() as i32);
            }
            o.marks.push(o.b.len());
            o.b.extend_from_slice(&n.b);
            for c in &m.kids {
                fix.push((o.b.len(), join(path, &c.name)));
                o.b.extend_from_slice(&[0; 4]);
            }
        } else {
            let mut unk: Vec<bool> = m.kids.iter().map(|_| rng.chance(1, 25)).collect();
            if path.is_empty() && (240..=256).contains(&unk.len()) {
                // (the stored count, unknown entries included, is then a multiple of 256)
                let more = 256 - unk.len();
                unk.iter_mut().enumerate().for_each(|(i, u)| *u = i % 16 == 3 && i / 16 < more);
            }
            o.int((m.kids.len() + unk.iter().filter(|x| **x).count()) as i32);
            for (i, c) in m.kids.iter().enumerate() {
                let ty = if c.v == V::Dir { 3 } else { 4 };
                if i > 0 && rng.chance(1, 6) {
                    o.b.push(2);
                    let mut s = Out::new(iv, rng.fork());
                    s.b.push(ty);
                    s.str(&c.name);
                    strs.push((o.b.len(), s.b));
                    o.b.extend_from_slice(&[0; 4]);
                } else {
                    o.b.push(ty);
                    o.str(&c.name);
                }
                o.int(sizes[&join(path, &c.name)] as i32);
                o.int(rng.next() as i32);
                fix.push((o.b.len(), join(path, &c.name)));
                o.b.extend_from_slice(&[0; 4]);
                if unk[i] {
                    o.b.push(1);
                    for _ in 0..10 {
                        o.b.push(rng.next() as u8);
                    }
                }
            }
        }
        sizes.insert(path.to_string(), o.b.len());
        dirs[slot].marks = o.marks;
        dirs[slot].marks.extend(fix.iter().map(|f: &(usize, String)| f.0));
        dirs[slot].b = o.b;
        dirs[slot].fix = fix;
        dirs[slot].strs = strs;
    }
    let cnt_mask = h1 as i64 ^ h as i64 ^ 0x550E_C4DD_02C4_68EC;
    walk(root, "", iv, pkg2, cnt_mask, &keys, &older, rng, &mut images, &mut dirs, &mut sizes);

    let mut b: Vec<u8> = vec![];
    let fstart;
    match pack {
        Pack::Pkg1 { ver, enc } => {
            fstart = 60 + rng.below(4) as usize;
            b.extend_from_slice(b"PKG1");
            b.extend_from_slice(&[0; 8]);
            b.extend_from_slice(&(fstart as u32).to_le_bytes());
            b.resize(fstart, b'x');
            if *enc {
                b.extend_from_slice(&(encver(*ver) as u16).to_le_bytes());
            }
        }
        Pack::Old { ver: 1201, .. } => {
            fstart = 68;
            b = (0..68).map(|_| rng.next() as u8).collect();
            b[0] = 0;
        }
        Pack::Old { ver, hash1, hash } => {
            fstart = 16 + rng.below(60) as usize;
            b.extend_from_slice(b"PKG2");
            b.extend_from_slice(&[0; 8]);
            b.extend_from_slice(&(fstart as u32).to_le_bytes());
            b.resize(fstart, b'x');
            b.extend_from_slice(&hash1.to_le_bytes());
            b.extend_from_slice(&old::hash2(*ver, *hash1, *hash).to_le_bytes());
        }
        Pack::Pkg2 { .. } => {
            fstart = 150;
            b = (0..150).map(|_| rng.next() as u8).collect();
            b[0] = 0;
        }
    }
    let data_start = b.len();
    let mut pos: HashMap<String, usize> = HashMap::new();
    let mut lay = Layout { data_start, ..Default::default() };
    for d in &dirs {
        pos.insert(d.path.clone(), b.len());
        lay.dirs.push((d.path.clone(), b.len(), d.b.len()));
        lay.marks.extend(d.marks.iter().map(|m| m + b.len()));
        b.extend_from_slice(&d.b);
    }
    for d in &dirs {
        for (p, s) in &d.strs {
            let at = b.len();
            b.extend_from_slice(s);
            let q = pos[&d.path] + p;
            b[q..q + 4].copy_from_slice(&((at - fstart) as i32).to_le_bytes());
        }
    }
    let mut order: Vec<usize> = (0..images.len()).collect();
    for i in (1..order.len()).rev() {
        let j = rng.below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    for i in order {
        let (p, d) = &images[i];
        for _ in 0..rng.below(3) {
            b.push(rng.next() as u8);
        }
        pos.insert(p.clone(), b.len());
        lay.images.push((p.clone(), b.len(), d.b.len()));
        lay.add_image(p, b.len(), d);
        b.extend_from_slice(&d.b);
    }
    for _ in 0..rng.below(8) {
        b.push(rng.next() as u8);
    }
    lay.len = b.len();
    let fs = (b.len() - fstart) as u64;
    lay.base = if pkg2 || older.is_some() { fstart as u32 } else { 2 * fstart as u32 };
    for d in &dirs {
        lay.refs.extend(d.fix.iter().map(|(p, c)| (pos[&d.path] + p, pos[c])));
    }
    match pack {
        Pack::Pkg1 { ver, enc } => {
            b[4..12].copy_from_slice(&fs.to_le_bytes());
            let hash = version_hash(*ver);
            for d in &dirs {
                for (p, c) in &d.fix {
                    let at = pos[&d.path] + p;
                    let e = (pos[c] as u32).wrapping_sub(2 * fstart as u32) ^ mask1(at, fstart, hash);
                    b[at..at + 4].copy_from_slice(&e.to_le_bytes());
                }
            }
            // a lower version number must not fit by chance (nor the header look like the other kind)
            if !*enc {
                let w = u16::from_le_bytes([b[fstart], b[fstart + 1]]);
                if w <= 0xff && w != 0x80 {
                    return None;
                }
            }
            let range = if *enc { 1..*ver } else { 770..*ver };
            if let Some(d) = dirs.first() {
                for v in range {
                    // a version whose number is the check value itself is taken as well
                    if *enc && encver(v) != encver(*ver) && v != encver(*ver) as i32 {
                        continue;
                    }
                    if d.fix.iter().all(|(p, _)| {
                        let at = pos[&d.path] + p;
                        let e = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                        let off = (e ^ mask1(at, fstart, version_hash(v))).wrapping_add(2 * fstart as u32) as usize;
                        off < b.len()
                    }) {
                        return None;
                    }
                }
            }
        }
        Pack::Old { ver, hash1, hash } => {
            if *ver == 1201 {
                let h2 = old::hash2(*ver, *hash1, *hash).to_le_bytes();
                for i in 0..4 {
                    b[[0x43, 0x1A, 0x30, 0x10][i]] = hash1.to_le_bytes()[i];
                    b[[0x2D, 0x07, 0x3F, 0x2E][i]] = h2[i];
                    b[[0x15, 0x19, 0x39, 0x41][i]] = fs.to_le_bytes()[i];
                }
                // (the header of 1202 is tried first)
                if b.len() >= 150 && u32::from_le_bytes([b[0x12], b[0x09], b[0x02], b[0x95]]) as usize == b.len() - 150 {
                    return None;
                }
            } else {
                b[4..12].copy_from_slice(&fs.to_le_bytes());
            }
            for d in &dirs {
                for (p, c) in &d.fix {
                    let at = pos[&d.path] + p;
                    let e = old::offset(*ver, *hash1, *hash, at, fstart, pos[c]);
                    b[at..at + 4].copy_from_slice(&e.to_le_bytes());
                }
            }
            // no other hash that gives the same check value may fit by chance
            let free = old::free_bits(*ver, *hash1, *hash);
            for x in 1u32..1 << free.len() {
                let h = free.iter().enumerate().fold(*hash, |h, (i, bit)| h ^ (x >> i & 1) << bit);
                let to = |d: &DirBlock, p: usize| {
                    let at = pos[&d.path] + p;
                    old::target(*ver, *hash1, h, at, fstart, u32::from_le_bytes(b[at..at + 4].try_into().unwrap()))
                };
                let fits = dirs[0].fix.iter().all(|(p, _)| to(&dirs[0], *p) < b.len());
                if fits && dirs.iter().any(|d| d.fix.iter().any(|(p, c)| to(d, *p) != pos[c])) {
                    return None;
                }
            }
        }
        Pack::Pkg2 { hash1, hash2 } => {
            for (i, p) in [0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67].iter().enumerate() {
                b[*p] = hash1.to_le_bytes()[i];
            }
            for (i, p) in [0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D].iter().enumerate() {
                b[*p] = hash2.to_le_bytes()[i];
            }
            for (i, p) in [0x12, 0x09, 0x02, 0x95].iter().enumerate() {
                b[*p] = (fs as u32).to_le_bytes()[i];
            }
            let hash = h as u32;
            let hash1 = *hash1 as u32;
            let pre = hash1 ^ hash;
            let mixed = pre ^ 0x33BB_BB33;
            for d in &dirs {
                for (p, c) in &d.fix {
                    let at = pos[&d.path] + p;
                    let mut o = !((at as u32).wrapping_sub(150));
                    o = o.wrapping_mul(pre.wrapping_add(mixed ^ 0xA7E3_C093));
                    o = o.wrapping_sub(0x581C_3F6D);
                    o ^= hash1.wrapping_mul(0x0101_0101);
                    o ^= mixed.wrapping_mul(0x9E37_79B9);
                    o = o.rotate_left(19);
                    let e = !((pos[c] as u32).wrapping_sub(150) ^ o);
                    b[at..at + 4].copy_from_slice(&e.to_le_bytes());
                }
            }
            if &b[0..4] == b"PKG1" || &b[0..4] == b"PKG2" || std::str::from_utf8(&b[0..4]).is_err() && false {
                return None;
            }
            // nothing that an older layout would accept by chance
            if cnt_mask < 0 || matches!(b[155], 3 | 4) || (b[156] as i8) < 0 {
                return None;
            }
        }
    }
    Some((b, lay))
}

/// one of the older forms
pub fn pkg2_old(rng: &mut Rng) -> Pack {
    let ver = 1196 + rng.below(6) as u32;
    pkg2_old_of(ver, rng)
}
pub fn pkg2_old_of(ver: u32, rng: &mut Rng) -> Pack {
    loop {
        let (mut hash1, mut hash) = (rng.next() as u32, rng.next() as u32);
        if rng.chance(1, 6) {
            // nothing to rotate
            hash &= !31;
            hash1 &= !15;
        }
        if old::free_bits(ver, hash1, hash).len() > 8 {
            continue;
        }
        // (with this key the first name would look like that of 1198)
        if hash != 0 && !(ver > 1198 && old::key(ver, hash1, hash).is_some_and(|k| k >> 8 == 0xDE_ADBE)) {
            return Pack::Old { ver, hash1, hash };
        }
    }
}

/// hashes for which the archive writer can succeed
pub fn pkg2_hashes(rng: &mut Rng) -> Pack {
    loop {
        let hash1 = rng.next();
        let hash2 = rng.next();
        let h = hash1 ^ hash2 ^ 0xABCD_EF01_2345_6789;
        let m = (hash1 ^ h ^ 0x550E_C4DD_02C4_68EC) as i64;
        let b = m.to_le_bytes();
        // bytes 4 and 5 of the stored count are the mask's (counts stay below 2^16)
        if m >= 0 && !matches!(b[4], 3 | 4) && (b[5] as i8) >= 0 {
            return Pack::Pkg2 { hash1, hash2 };
        }
    }
}

const CHACHA_BASE: [u8; 32] = [
    0x7B, 0x2F, 0x35, 0x48, 0x43, 0x95, 0x02, 0xB9, 0xAE, 0x91, 0xA6, 0xE1, 0xD8, 0xD6, 0x24, 0xB4, 0x33, 0x10, 0x1D,
    0x3D, 0xC1, 0xBB, 0xC6, 0xF4, 0xA5, 0xFE, 0xB3, 0x69, 0x6B, 0x56, 0xE4, 0x75,
];
fn chacha(key: &[u8; 32], nonce: &[u8; 12], counter: u32, data: &mut [u8]) {
    use c2_chacha::stream_cipher::{NewStreamCipher, SyncStreamCipher};
    let mut c = c2_chacha::Ietf::new_var(key, nonce).unwrap();
    c.state.state.set_stream_param(0, counter as u64);
    c.apply_keystream(data);
}
/// the entry table of the newer .ms layout: 64-byte chunks whose block counter restarts whenever a field ends a chunk
struct ChunkOut {
    b: Vec<u8>,
    key: [u8; 32],
    counter: u32,
    ks: [u8; 64],
}
impl ChunkOut {
    fn put(&mut self, d: &[u8]) {
        for x in d {
            let p = self.b.len() % 64;
            if p == 0 {
                self.ks = [0; 64];
                chacha(&self.key, &[0; 12], self.counter, &mut self.ks);
                self.counter += 1;
            }
            self.b.push(x ^ self.ks[p]);
        }
        if self.b.len() % 64 == 0 {
            self.counter = 0;
        }
    }
}
fn ms_digits(salt: &str) -> (u32, Vec<u8>) {
    let h = salt.chars().fold(0x811C_9DC5u32, |h, c| (h ^ c as u32).wrapping_mul(0x0100_0193));
    (h, h.to_string().bytes().map(|c| c - 48).collect())
}
fn ms_key_byte(i: usize, name: &str, dg: &[u8], ekey: &[u8; 16]) -> u8 {
    let c = name.as_bytes()[i % name.len()];
    let d1 = dg[i % dg.len()] % 2;
    let d2 = (dg[(i + 1) % dg.len()] + i as u8) % 5;
    let e = ekey[((dg[(i + 2) % dg.len()] + i as u8) % 16) as usize];
    (i as u8).wrapping_add(c.wrapping_mul(d1.wrapping_add(e).wrapping_add(d2)))
}

/// encode a .ms file; the kids of `root` are the images
pub fn ms_file(file_name: &str, root: &M, newer: bool, rng: &mut Rng) -> (Vec<u8>, Layout) {
    use crate::snow2::Snow2Decryptor as Snow;
    let name = file_name.to_ascii_lowercase();
    let sum: usize = name.bytes().map(|b| b as usize).sum();
    let salt: String = (0..4 + rng.below(16)).map(|_| (b'!' + rng.below(90) as u8) as char).collect();
    let nr = sum % 312 + 30;
    let mut b: Vec<u8> = (0..nr).map(|_| rng.next() as u8).collect();
    let rnd: Vec<u8> = b.iter().map(|x| if newer { ((*x as i8) >> 1) as u8 } else { *x }).collect();
    if newer {
        b.push(4 ^ rnd[0]);
    }
    let at = b.len();
    b.push(salt.len() as u8 ^ rnd[0]);
    b.extend((0..3).map(|_| rng.next() as u8));
    let hashed = i32::from_le_bytes(b[at..at + 4].try_into().unwrap());
    let mut saltsum = 0i32;
    for (i, c) in salt.bytes().enumerate() {
        let x = if newer { rnd[i] ^ c ^ 0x4B } else { rnd[i] ^ c };
        let y = rng.next() as u8;
        b.extend([x, y]);
        saltsum = saltsum.wrapping_add(u16::from_le_bytes([x, y]) as i32);
    }
    let full = format!("{name}{salt}").into_bytes();
    let l = full.len();
    let n = root.kids.len() as i32;
    let hstart = b.len();
    let key = |i: usize| full[i % l].wrapping_add(i as u8);
    let key2 = |i: usize| (i as u8).wrapping_add((i as u8 % 3 + 2).wrapping_mul(full[l - 1 - i % l]));
    let estart;
    if newer {
        let mut h = vec![];
        h.extend(rng.next().to_le_bytes()[..4].iter());
        h.extend(n.to_le_bytes());
        chacha(&core::array::from_fn(|i| key(i) ^ CHACHA_BASE[i]), &[0; 12], 0, &mut h);
        b.extend(h);
        estart = hstart + 8 + sum * 3 % 212 + 64;
    } else {
        let mut h = hashed.wrapping_add(2).wrapping_add(n).wrapping_add(saltsum).to_le_bytes().to_vec();
        h.push(2);
        h.extend(n.to_le_bytes());
        h.extend([rng.next() as u8, 7, 9]);
        Snow::new(core::array::from_fn(key)).encrypt_slice(&mut h);
        b.extend(h);
        estart = hstart + 9 + sum * 3 % 212 + 33;
    }
    b.resize(estart, 0xA5);
    let (hash, dg) = ms_digits(&salt);
    let mut lay = Layout { data_start: hstart, ..Default::default() };
    let mut table = ChunkOut { b: vec![], key: core::array::from_fn(|i| CHACHA_BASE[i] ^ key2(i)), counter: 0, ks: [0; 64] };
    let mut plain: Vec<u8> = vec![];
    let mut blobs: Vec<Vec<u8>> = vec![];
    let mut block = 0i32;
    for k in &root.kids {
        let mut d = image_bytes(k, BMS, rng.fork());
        let size = d.len();
        let gap = rng.below(4) as i32 / 3;
        d.resize(size.div_ceil(1024) * 1024, 0x5A);
        let ekey: [u8; 16] = core::array::from_fn(|_| rng.next() as u8);
        let u: Vec<u16> = k.name.encode_utf16().collect();
        let mut fields: Vec<Vec<u8>> = vec![(u.len() as i32).to_le_bytes().to_vec(), u.iter().flat_map(|x| x.to_le_bytes()).collect()];
        for v in [rng.next() as i32, 0, block + gap, size as i32, d.len() as i32, 0, 0] {
            fields.push(v.to_le_bytes().to_vec());
        }
        fields.push(ekey.to_vec());
        if newer {
            fields.push(vec![0; 4]);
            fields.push(vec![0; 4]);
        }
        for f in fields {
            table.put(&f);
            plain.extend(f);
        }
        let m = d.len().min(1024);
        if newer {
            let h2 = hash >> 1;
            let mut nb: Vec<u8> = [hash, h2, h2 ^ 0x6C].iter().flat_map(|x| x.to_le_bytes()).collect();
            let (mut a, mut bb, mut c, mut dd) = (0i32, 0i32, 90i32, 0i32);
            for (i, x) in nb.iter_mut().enumerate() {
                let i = i as i32;
                *x ^= (dd + 11 * (i / 11) + (c ^ (i >> 2)) + (a ^ bb)) as u8;
                dd -= 1;
                a += 8;
                bb += 17;
                c += 43;
            }
            let mut nonce = [0u8; 12];
            nonce[4..].copy_from_slice(&nb[..8]);
            let counter = u32::from_le_bytes(nb[8..12].try_into().unwrap());
            let key: [u8; 32] = core::array::from_fn(|i| ms_key_byte(i, &k.name, &dg, &ekey) ^ CHACHA_BASE[i]);
            chacha(&key, &nonce, counter, &mut d[..m]);
        } else {
            let key: [u8; 16] = core::array::from_fn(|i| ms_key_byte(i, &k.name, &dg, &ekey));
            Snow::new(key).encrypt_slice(&mut d);
            Snow::new(key).encrypt_slice(&mut d[..m]);
        }
        lay.images.push((k.name.clone(), ((block + gap) * 1024) as usize, size));
        let mut padded = vec![0xC3; gap as usize * 1024];
        padded.extend(&d);
        block += gap + d.len() as i32 / 1024;
        blobs.push(padded);
    }
    let t = if newer {
        let mut t = table.b;
        t.resize(t.len().div_ceil(64) * 64, 0);
        t
    } else {
        plain.resize(plain.len().div_ceil(4) * 4, 0);
        Snow::new(core::array::from_fn(key2)).encrypt_slice(&mut plain);
        plain
    };
    lay.dirs.push((String::new(), b.len(), t.len()));
    b.extend(t);
    b.resize(b.len().div_ceil(1024) * 1024, 0x11);
    let base = b.len();
    for (_, o, _) in lay.images.iter_mut() {
        *o += base;
    }
    for x in blobs {
        b.extend(x);
    }
    b.resize(b.len().max(hstart + 256), 0);
    lay.len = b.len();
    (b, lay)
}
