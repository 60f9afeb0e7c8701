//! Pixel oracle, written from the format definitions (sequential, no table construction shared with the library).
use image::DynamicImage;
use simstd::sim::Rng;

pub const FORMATS: [u32; 11] = [1, 2, 257, 513, 517, 1026, 3, 2050, 4098, 769, 2562];
pub const UNSUPPORTED: [u32; 4] = [4097, 2304, 4100, 77];

/// bytes of the uncompressed data
pub fn raw_len(fmt: u32, w: u32, h: u32) -> usize {
    let (w, h) = (w as usize, h as usize);
    let b4 = w.div_ceil(4) * h.div_ceil(4) * 16;
    match fmt {
        1 | 257 | 513 | 769 => w * h * 2,
        2 | 2562 => w * h * 4,
        517 => w * h / 128,
        1026 | 3 | 2050 | 4098 => b4,
        4097 => b4 / 2,
        2304 => w * h,
        4100 => w * h * 16,
        _ => 8,
    }
}

pub fn raw(fmt: u32, w: u32, h: u32, rng: &mut Rng) -> Vec<u8> {
    let n = raw_len(fmt, w, h);
    let mode = rng.below(4);
    let mut r = rng.fork();
    let c = r.next() as u8;
    (0..n)
        .map(|i| match mode {
            0 => c,
            1 => (i as u8).wrapping_mul(c | 1),
            _ => r.next() as u8,
        })
        .collect()
}

fn c565(c: u16) -> [u8; 3] {
    let x5 = |v: u16| ((v as u32 & 31) * 33 / 4) as u8;
    let x6 = |v: u16| ((v as u32 & 63) * 65 / 16) as u8;
    [x5(c >> 11), x6(c >> 5), x5(c)]
}
fn dxt_rgb(b: &[u8], i: usize) -> [u8; 3] {
    let c0 = u16::from_le_bytes([b[8], b[9]]);
    let c1 = u16::from_le_bytes([b[10], b[11]]);
    let sel = (u32::from_le_bytes([b[12], b[13], b[14], b[15]]) >> (2 * i)) & 3;
    let (p, q) = (c565(c0), c565(c1));
    let m = |f: &dyn Fn(u32, u32) -> u32| {
        let mut o = [0u8; 3];
        for k in 0..3 {
            o[k] = f(p[k] as u32, q[k] as u32) as u8;
        }
        o
    };
    match (sel, c0 > c1) {
        (0, _) => p,
        (1, _) => q,
        (2, true) => m(&|a, b| (a * 2 + b + 1) / 3),
        (3, true) => m(&|a, b| (a + b * 2 + 1) / 3),
        (2, false) => m(&|a, b| (a + b) / 2),
        _ => [0, 0, 0],
    }
}
fn dxt5_alpha(b: &[u8], i: usize) -> u8 {
    let mut bits = [0u8; 8];
    bits[..6].copy_from_slice(&b[2..8]);
    let s = (u64::from_le_bytes(bits) >> (3 * i)) as u32 & 7;
    let (a, c) = (b[0] as u32, b[1] as u32);
    (match s {
        0 => a,
        1 => c,
        _ if a > c => ((8 - s) * a + (s - 1) * c + 3) / 7,
        6 => 0,
        7 => 255,
        _ => ((6 - s) * a + (s - 1) * c + 2) / 5,
    }) as u8
}

/// (kind, pixel bytes): kind 8 = rgba8, 3 = rgb8, 16 = rgba16
pub fn expect(fmt: u32, w: u32, h: u32, d: &[u8]) -> Option<(u32, Vec<u8>)> {
    let (wu, hu) = (w as usize, h as usize);
    let mut o: Vec<u8> = vec![];
    let per = |o: &mut Vec<u8>, n: usize, f: &dyn Fn(&[u8], &mut Vec<u8>)| {
        for i in 0..wu * hu {
            f(&d[i * n..i * n + n], o)
        }
    };
    let le = |p: &[u8]| u16::from_le_bytes([p[0], p[1]]);
    let kind = match fmt {
        1 => {
            per(&mut o, 2, &|p, o| {
                let v = le(p) as u32;
                for s in [8, 4, 0, 12] {
                    o.push((((v >> s) & 15) * 17) as u8)
                }
            });
            8
        }
        2 => {
            per(&mut o, 4, &|p, o| o.extend([p[2], p[1], p[0], p[3]]));
            8
        }
        257 => {
            per(&mut o, 2, &|p, o| {
                let v = le(p) as u32;
                for s in [10, 5, 0] {
                    o.push((((v >> s) & 31) * 33 / 4) as u8)
                }
                o.push(if v >> 15 == 1 { 255 } else { 0 })
            });
            8
        }
        513 => {
            per(&mut o, 2, &|p, o| o.extend(c565(le(p))));
            3
        }
        517 => {
            for y in 0..hu {
                for x in 0..wu {
                    let i = (y / 16 * (wu / 16) + x / 16) * 2;
                    o.extend(c565(le(&d[i..])))
                }
            }
            3
        }
        769 => {
            per(&mut o, 2, &|p, o| o.extend([p[0], p[1], 0, 0, 0, 0, 255, 255]));
            16
        }
        2562 => {
            per(&mut o, 4, &|p, o| {
                let v = u32::from_le_bytes([p[0], p[1], p[2], p[3]]);
                o.extend([(v >> 2) as u8, (v >> 12) as u8, (v >> 22) as u8, ((v >> 30) * 85) as u8])
            });
            8
        }
        1026 | 3 | 2050 => {
            let row = wu.div_ceil(4);
            for y in 0..hu {
                for x in 0..wu {
                    let b = &d[(y / 4 * row + x / 4) * 16..][..16];
                    let i = (y % 4) * 4 + x % 4;
                    o.extend(dxt_rgb(b, i));
                    o.push(if fmt == 2050 { dxt5_alpha(b, i) } else { (b[i / 2] >> (4 * (i % 2)) & 15) * 17 })
                }
            }
            8
        }
        4098 => {
            let row = wu.div_ceil(4);
            o = vec![0; wu * hu * 4];
            for by in 0..hu.div_ceil(4) {
                for bx in 0..row {
                    let mut px = [0u32; 16];
                    texture2ddecoder::decode_bc7(&d[(by * row + bx) * 16..][..16], 4, 4, &mut px).unwrap();
                    for y in 0..4 {
                        for x in 0..4 {
                            let (gx, gy) = (bx * 4 + x, by * 4 + y);
                            if gx < wu && gy < hu {
                                let p = px[y * 4 + x].to_le_bytes();
                                o[(gy * wu + gx) * 4..][..4].copy_from_slice(&[p[2], p[1], p[0], p[3]]);
                            }
                        }
                    }
                }
            }
            8
        }
        _ => return None,
    };
    Some((kind, o))
}

pub fn observed(i: &DynamicImage) -> (u32, u32, u32, Vec<u8>) {
    match i {
        DynamicImage::ImageRgba8(b) => (8, b.width(), b.height(), b.as_raw().clone()),
        DynamicImage::ImageRgb8(b) => (3, b.width(), b.height(), b.as_raw().clone()),
        DynamicImage::ImageRgba16(b) => (16, b.width(), b.height(), b.as_raw().iter().flat_map(|x| x.to_le_bytes()).collect()),
        _ => (0, i.width(), i.height(), vec![]),
    }
}
