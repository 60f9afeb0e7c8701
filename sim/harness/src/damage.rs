//! Damage to stored bytes: drawn by the plan, placed by the layout of the file.
use crate::run::*;
use crate::world::*;
use simstd::sim::Rng;

/// kinds: "trunc", "flip", "zero", "rand", "copy", "val", "foreign", "empty"
pub fn draw(rng: &mut Rng) -> Op {
    let k = *rng.pick(&["trunc", "trunc", "flip", "flip", "flip", "zero", "rand", "copy", "val", "val", "val", "val", "foreign", "empty", "loop"]);
    let k = if k == "empty" && !rng.chance(1, 6) { "flip" } else { k };
    op(k, rng.next() >> 24, rng.next() >> 24, rng.next() >> 32)
}
/// a position in the file
pub fn place(f: &FileW, a: u64) -> usize {
    let l = &f.lay;
    let n = f.bytes.len().max(1);
    let x = (a >> 8) as usize;
    let pick = |v: &[(String, usize, usize)], inside: bool| {
        if v.is_empty() {
            x % n
        } else {
            let (_, p, len) = &v[x % v.len()];
            p + if inside { (x >> 8) % (*len).max(1) } else { (x >> 8) % 12.min((*len).max(1)) }
        }
    };
    let p = match a % 16 {
        0..=7 if !l.marks.is_empty() => l.marks[x % l.marks.len()],
        0..=7 | 8 | 9 => x % n,
        10 => x % 200.min(n),
        11 => x % (l.data_start + 20).min(n),
        12 => pick(&l.dirs, true),
        13 => pick(&l.images, false),
        14 => pick(&l.pay, false),
        _ => pick(&l.images, true),
    };
    p.min(n - 1)
}
const VALS: &[&[u8]] = &[
    &[0x80, 0xFF, 0xFF, 0xFF, 0x7F],
    &[0x80, 0x00, 0x00, 0x00, 0x80],
    &[0x80, 0xFF, 0xFF, 0xFF, 0xFF],
    &[0x80, 0x00, 0x00, 0x10, 0x00],
    &[0x80, 0x00, 0x00, 0x00, 0x40],
    &[0xFF, 0xFF, 0xFF, 0xFF],
    &[0xFF, 0xFF, 0xFF, 0x7F],
    &[0x00, 0x00, 0x00, 0x80],
    &[0x00, 0x00, 0x00, 0x00],
    &[0x00],
    &[0x01],
    &[0x7F],
    &[0x81],
    &[0xFF],
    &[0x80],
    &[0x00, 0x80],
    &[0x09],
    &[0x1B],
    &[0x73],
    &[0x78, 0x9C],
    &[0x04],
    &[0x03],
    &[0x02],
    &[0x10, 0x00, 0x00, 0x00],
    &[0x00, 0x00, 0x01, 0x00],
    &[0x7F, 0xFF, 0xFF, 0xFF, 0x7F],
    &[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x80],
    &[0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xF8, 0x7F],
    &[0x00, 0x00, 0xC0, 0x7F],
];
/// change the bytes; returns the first byte and the number of bytes that may differ now
pub fn apply(f: &FileW, b: &mut Vec<u8>, o: &Op, foreign: &[u8]) -> (usize, usize) {
    if b.is_empty() {
        return (0, 0);
    }
    let p = place(f, o.a).min(b.len() - 1);
    let put = |b: &mut Vec<u8>, p: usize, d: &[u8]| {
        let n = d.len().min(b.len() - p);
        b[p..p + n].copy_from_slice(&d[..n]);
        (p, n)
    };
    match o.k.as_str() {
        "empty" => {
            count(C_TRUNC);
            b.clear();
            (0, usize::MAX / 2)
        }
        "trunc" => {
            count(C_TRUNC);
            // at, or a little behind, the place
            let q = (p + (o.b % 6) as usize).min(b.len());
            b.truncate(q);
            (q, usize::MAX / 2)
        }
        "flip" => {
            count(C_DAMAGE);
            b[p] ^= 1 << (o.b % 8);
            (p, 1)
        }
        "zero" => {
            count(C_DAMAGE);
            let n = 1 + (o.b % 64) as usize;
            put(b, p, &vec![0; n])
        }
        "rand" => {
            count(C_DAMAGE);
            let n = 1 + (o.b % 40) as usize;
            let mut r = Rng::new(o.c);
            let d: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            put(b, p, &d)
        }
        "copy" => {
            count(C_DAMAGE);
            // older content: another part of the same file
            let from = place(f, o.c).min(b.len() - 1);
            let n = (1 + (o.b % 64) as usize).min(b.len() - from);
            let d = b[from..from + n].to_vec();
            put(b, p, &d)
        }
        "foreign" => {
            count(C_DAMAGE);
            if foreign.is_empty() {
                return (p, 0);
            }
            let from = o.c as usize % foreign.len();
            let n = (1 + (o.b % 600) as usize).min(foreign.len() - from);
            let d = foreign[from..from + n].to_vec();
            put(b, p, &d)
        }
        "val" => {
            count(C_DAMAGE);
            put(b, p, VALS[o.b as usize % VALS.len()])
        }
        "loop" => {
            // an entry of a directory leads to other content
            let l = &f.lay;
            if l.refs.is_empty() || b.len() != f.bytes.len() {
                return (p, 0);
            }
            count(C_DAMAGE);
            let i = o.a as usize % l.refs.len();
            let to = if o.b % 3 != 0 || l.images.is_empty() { l.dirs[(o.b >> 8) as usize % l.dirs.len()].1 } else { l.images[(o.b >> 8) as usize % l.images.len()].1 };
            (l.relink(b, i, to), 4)
        }
        _ => (p, 0),
    }
}

/// some bytes become others at the given place
pub fn value(b: &mut [u8], p: usize, r: &mut Rng) {
    count(C_DAMAGE);
    if p >= b.len() {
        return;
    }
    let d: Vec<u8> = match r.below(4) {
        0 => vec![b[p] ^ 1 << r.below(8)],
        1 => (0..1 + r.below(8)).map(|_| r.next() as u8).collect(),
        2 => vec![0; 1 + r.below(16) as usize],
        _ => VALS[r.below(VALS.len() as u64) as usize].to_vec(),
    };
    let n = d.len().min(b.len() - p);
    b[p..p + n].copy_from_slice(&d[..n]);
}
