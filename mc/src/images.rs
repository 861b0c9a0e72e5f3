//! Image generators and printing.

use crate::Ch;
use image::{GrayImage, ImageBuffer, Luma, Pixel};

pub type Img<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;

/// Every pixel chosen from `alpha`.
pub fn gray(ch: &mut Ch, w: u32, h: u32, alpha: &[u8]) -> GrayImage {
    let mut v = Vec::with_capacity((w * h) as usize);
    for _ in 0..w * h {
        v.push(alpha[ch.choose(alpha.len())]);
    }
    GrayImage::from_raw(w, h, v).unwrap()
}

/// Every pixel chosen from `alpha`.
pub fn img_of<P: Pixel>(ch: &mut Ch, w: u32, h: u32, alpha: &[P]) -> Img<P> {
    let mut v = Vec::with_capacity((w * h) as usize * P::CHANNEL_COUNT as usize);
    for _ in 0..w * h {
        let k = ch.choose(alpha.len());
        v.extend_from_slice(alpha[k].channels());
    }
    ImageBuffer::from_raw(w, h, v).unwrap()
}

/// A shape whose area is at most `max_area`.
pub fn shape(ch: &mut Ch, lo: u32, hi: u32, max_area: u32) -> (u32, u32) {
    let mut v = vec![];
    for a in lo..=hi {
        for b in lo..=hi {
            if a * b <= max_area {
                v.push((a, b));
            }
        }
    }
    v.sort_by_key(|&(a, b)| (a * b, a));
    ch.pick(&v)
}

/// Widths and heights at which an implementation that works in blocks, or switches method with
/// the size, would change what it does: every size up to 70 and the neighbours of larger round
/// sizes, as rows, as columns, as single lines and (up to 70) as squares, and a few large squares.
pub fn sweep_shape(ch: &mut Ch) -> (u32, u32) {
    let mut v = vec![];
    let round = [95, 96, 97, 127, 128, 129, 191, 192, 193, 200, 255, 256, 257, 320, 511, 512, 513, 640, 1023, 1024, 1025];
    for n in (1..=70u32).chain(round) {
        v.extend([(n, 3), (4, n), (n, 1), (1, n)]);
        if n <= 70 {
            v.push((n, n));
        }
    }
    v.extend([(100, 100), (128, 130), (129, 127), (200, 201), (256, 257)]);
    ch.pick(&v)
}

pub const NPAT: usize = 10;

fn hash(a: u32, b: u32, c: u32, k: u32) -> u32 {
    let mut h = a.wrapping_mul(0x9E3779B1) ^ b.wrapping_mul(0x85EBCA77) ^ c.wrapping_mul(0xC2B2AE3D) ^ k.wrapping_mul(0x27D4EB2F);
    h ^= h >> 15;
    h = h.wrapping_mul(0x2C1B3C6D);
    h ^= h >> 12;
    h = h.wrapping_mul(0x297A2D39);
    h ^ (h >> 15)
}

/// An enumerated family of deterministic patterns.
pub fn pat(k: usize, x: u32, y: u32, c: u32, w: u32, h: u32) -> u8 {
    match k {
        0 => hash(x, y, c, 1) as u8,
        1 => ((x * 255) / w.max(1)) as u8 ^ (c as u8 * 3),
        2 => 255 - ((y * 255) / h.max(1)) as u8,
        3 => {
            if (x + y + c) % 2 == 0 {
                255
            } else {
                0
            }
        }
        4 => {
            if x % 4 < 2 {
                250
            } else {
                3 + c as u8
            }
        }
        5 => 255,
        6 => (hash(x, y, c, 7) % 3) as u8 * 100,
        7 => ((x + y * w) * 7 + c * 31) as u8,
        8 => {
            if hash(x / 3, y / 2, c, 3) % 3 == 0 {
                200
            } else {
                10
            }
        }
        _ => {
            if (x as i64 - w as i64 / 2).pow(2) + (y as i64 - h as i64 / 2).pow(2) < (w.min(h) as i64).pow(2) / 9 + 1 {
                180
            } else {
                (x * 5 + y * 3) as u8 % 60
            }
        }
    }
}

pub fn gray_pat(k: usize, w: u32, h: u32) -> GrayImage {
    GrayImage::from_fn(w, h, |x, y| Luma([pat(k, x, y, 0, w, h)]))
}

/// One of the patterns, or an impulse (bright on dark, dark on bright) at some position.
pub fn gray_family(ch: &mut Ch, w: u32, h: u32) -> GrayImage {
    let n = (w * h) as usize;
    let k = ch.choose(NPAT + 2 * n);
    if k < NPAT {
        gray_pat(k, w, h)
    } else {
        let k = k - NPAT;
        let (pos, inv) = (k % n.max(1), k >= n);
        let (bg, fg) = if inv { (255, 0) } else { (0, 255) };
        let mut v = vec![bg; n];
        v[pos] = fg;
        GrayImage::from_raw(w, h, v).unwrap()
    }
}

/// Pattern image of any u8 pixel layout.
pub fn u8_pat<P: Pixel<Subpixel = u8>>(k: usize, w: u32, h: u32) -> Img<P> {
    let cc = P::CHANNEL_COUNT as u32;
    let mut v = Vec::new();
    for y in 0..h {
        for x in 0..w {
            for c in 0..cc {
                v.push(pat(k, x, y, c, w, h));
            }
        }
    }
    ImageBuffer::from_raw(w, h, v).unwrap()
}

/// Value with coordinates clamped to the image.
#[inline]
pub fn clamped(img: &GrayImage, x: i64, y: i64) -> u8 {
    let x = x.clamp(0, img.width() as i64 - 1) as u32;
    let y = y.clamp(0, img.height() as i64 - 1) as u32;
    img.as_raw()[(y * img.width() + x) as usize]
}

/// Rows of an image, one text line.
pub fn show<P: Pixel>(img: &Img<P>) -> String
where
    P::Subpixel: std::fmt::Debug,
{
    let mut s = format!("{}x{}", img.width(), img.height());
    if img.width() * img.height() > 400 {
        return s + " (large)";
    }
    for y in 0..img.height() {
        s.push_str(" /");
        for x in 0..img.width() {
            let p = img.get_pixel(x, y);
            let c = p.channels();
            if c.len() == 1 {
                s.push_str(&format!(" {:?}", c[0]));
            } else {
                s.push_str(&format!(" {c:?}"));
            }
        }
    }
    s
}

/// First difference between two images.
pub fn diff<P: Pixel>(got: &Img<P>, want: &Img<P>) -> Option<String>
where
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    if got.dimensions() != want.dimensions() {
        return Some(format!("dimensions {:?}, expected {:?}", got.dimensions(), want.dimensions()));
    }
    if got.as_raw() == want.as_raw() {
        return None;
    }
    for y in 0..got.height() {
        for x in 0..got.width() {
            let (a, b) = (got.get_pixel(x, y).channels(), want.get_pixel(x, y).channels());
            if a != b {
                return Some(format!("at ({x},{y}): got {a:?}, expected {b:?}"));
            }
        }
    }
    None
}

/// Some larger shapes, beyond any block or lane size a fast path could plausibly use.
/// Shapes with sides beyond 2^9 or 2^16, or more than 2^16 pixels.
pub fn huge_shape(ch: &mut Ch) -> (u32, u32) {
    ch.pick(&[(1000, 700), (66000, 3), (3, 66000), (70001, 1), (1, 70001)])
}

pub fn large_shape(ch: &mut Ch) -> (u32, u32) {
    ch.pick(&[(17, 33), (64, 5), (5, 64), (65, 40), (3, 130), (257, 2), (2, 300), (300, 3)])
}

/// Every value up to `dense`, then the powers of two with their neighbours, and a few round
/// numbers, up to `top`.
pub fn ladder(dense: u32, top: u32) -> Vec<u32> {
    let mut v: Vec<u64> = (0..=dense as u64).collect();
    for b in 1..32 {
        let p = 1u64 << b;
        v.extend([p - 1, p, p + 1, p + p / 2]);
    }
    v.extend([100, 300, 1000, 3000, 10_000, 30_000, 100_000, 300_000, 1_000_000]);
    v.retain(|&x| x <= top as u64);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as u32).collect()
}
