//! C15: contours.
use image::*;
use imageproc::contours::*;
use imageproc::point::Point;
use mc::*;
use std::collections::{BTreeMap, BTreeSet};

/// Regions of the image surrounded by one pixel of background: 8-connected foreground and
/// 4-connected background. Region 0 is the outer background.
struct Regions {
    w: i64,
    h: i64,
    label: Vec<usize>,
    fg: Vec<bool>,
    /// the enclosing region
    parent: Vec<usize>,
}

impl Regions {
    fn new(img: &GrayImage, t: u8) -> Regions {
        let (w, h) = (img.width() as i64 + 2, img.height() as i64 + 2);
        let is = |x: i64, y: i64| x > 0 && y > 0 && x < w - 1 && y < h - 1 && img.get_pixel(x as u32 - 1, y as u32 - 1)[0] > t;
        let at = |x: i64, y: i64| (y * w + x) as usize;
        let mut label = vec![usize::MAX; (w * h) as usize];
        let (mut fg, mut parent) = (vec![], vec![]);
        for y in 0..h {
            for x in 0..w {
                if label[at(x, y)] != usize::MAX {
                    continue;
                }
                let l = fg.len();
                let f = is(x, y);
                fg.push(f);
                // the first pixel in raster order has its left neighbour in the enclosing region
                parent.push(if x == 0 { 0 } else { label[at(x - 1, y)] });
                label[at(x, y)] = l;
                let mut st = vec![(x, y)];
                while let Some((x, y)) = st.pop() {
                    for dy in -1..=1 {
                        for dx in -1..=1i64 {
                            let (a, b) = (x + dx, y + dy);
                            if (!f && dx != 0 && dy != 0) || a < 0 || b < 0 || a >= w || b >= h {
                                continue;
                            }
                            if is(a, b) == f && label[at(a, b)] == usize::MAX {
                                label[at(a, b)] = l;
                                st.push((a, b));
                            }
                        }
                    }
                }
            }
        }
        Regions { w, h, label, fg, parent }
    }
    /// For each pair of regions `a`, `b`, the foreground pixels of `a` that have a 4-neighbour in `b`, in image coordinates.
    fn borders(&self) -> BTreeMap<(usize, usize), BTreeSet<(i64, i64)>> {
        let mut m: BTreeMap<(usize, usize), BTreeSet<(i64, i64)>> = BTreeMap::new();
        for y in 1..self.h - 1 {
            for x in 1..self.w - 1 {
                let i = (y * self.w + x) as usize;
                let a = self.label[i];
                if !self.fg[a] {
                    continue;
                }
                for j in [i - 1, i + 1, i - self.w as usize, i + self.w as usize] {
                    if self.label[j] != a {
                        m.entry((a, self.label[j])).or_default().insert((x - 1, y - 1));
                    }
                }
            }
        }
        m
    }
}

fn one(ch: &mut Ch, img: &GrayImage, t: u8) -> R {
    ch.op();
    ch.log(|| format!("threshold {t} {}", show(img)));
    let cs: Vec<Contour<i32>> = if t == 0 { find_contours(img) } else { find_contours_with_threshold(img, t) };
    let rg = Regions::new(img, t);
    let lab = |p: &Point<i32>| rg.label[((p.y as i64 + 1) * rg.w + p.x as i64 + 1) as usize];
    // the child region that each contour delimits
    let mut child = vec![];
    let mut used = vec![usize::MAX; rg.fg.len()];
    let borders = rg.borders();
    let mut holes = vec![vec![]; rg.fg.len()];
    for b in 1..rg.fg.len() {
        if !rg.fg[b] {
            holes[rg.parent[b]].push(b);
        }
    }
    for (i, c) in cs.iter().enumerate() {
        check!(!c.points.is_empty(), "contour {i} is empty");
        let s: BTreeSet<(i64, i64)> = c.points.iter().map(|p| (p.x as i64, p.y as i64)).collect();
        for p in &c.points {
            check!(p.x >= 0 && p.y >= 0 && p.x < img.width() as i32 && p.y < img.height() as i32, "contour {i}: {p:?} outside");
            check!(rg.fg[lab(p)], "contour {i}: {p:?} is background");
        }
        for (k, p) in c.points.iter().enumerate() {
            let q = c.points[(k + 1) % c.points.len()];
            let d = (p.x - q.x).abs().max((p.y - q.y).abs());
            check!(d == 1 || c.points.len() == 1, "contour {i}: {p:?} and {q:?} are not adjacent");
        }
        let comp = lab(&c.points[0]);
        let found = match c.border_type {
            BorderType::Outer => (borders.get(&(comp, rg.parent[comp])) == Some(&s)).then_some(comp),
            BorderType::Hole => holes[comp].iter().copied().find(|&b| used[b] == usize::MAX && borders.get(&(comp, b)) == Some(&s)),
        };
        match found {
            Some(f) => {
                check!(used[f] == usize::MAX, "contour {i} repeats a border");
                used[f] = i;
                child.push(f);
            }
            None => fail!("contour {i} ({:?}, {} points, first {:?}) is not such a border of its component", c.border_type, c.points.len(), c.points[0]),
        }
    }
    // two holes of a component can have the same border only if both are delimited: counted by the injection
    if let Some(r) = (1..rg.fg.len()).find(|&r| used[r] == usize::MAX) {
        fail!("{} contours for {} borders: region {r} is missing", cs.len(), rg.fg.len() - 1);
    }
    for (i, c) in cs.iter().enumerate() {
        let p = rg.parent[child[i]];
        let e = (used[p] != usize::MAX).then_some(used[p]);
        check!(c.parent == e, "contour {i} has parent {:?}, expected {e:?}", c.parent);
    }
    ch.observe(cs.len() as u64 * 1000 + cs.iter().map(|c| c.points.len() as u64).sum::<u64>());
    Ok(())
}

fn tile(k: usize, x: u32, y: u32) -> bool {
    let ring = |a: u32, b: u32| x >= a && x <= b && y >= a && y <= b && (x == a || y == a || x == b || y == b);
    match k {
        0 => false,
        1 => ring(0, 4) || (x == 2 && y == 2),
        2 => ring(0, 4),
        3 => ring(1, 3),
        4 => x == y || x + y == 4,
        5 => x == 2 || y == 1,
        _ => true,
    }
}

fn main() {
    run("C15", |r| {
        r.section("binary", "all binary images of area <=16 (thorough 18), every shape", |ch| {
            let a = if ch.thorough { 18 } else { 16 };
            let (w, h) = shape(ch, 1, a, a);
            let img = gray(ch, w, h, &[0, 1]);
            one(ch, &img, 0)
        });
        r.section("wide", "all binary 5x4 images (thorough: also 4x5, 6x4, 5x5)", |ch| {
            let (w, h) = if ch.thorough { ch.pick(&[(5, 4), (4, 5), (6, 4), (5, 5)]) } else { (5, 4) };
            let img = gray(ch, w, h, &[0, 1]);
            one(ch, &img, 0)
        });
        r.section("thresholds", "all images of area <=5 over {0,1,128,255}, thresholds around each value", |ch| {
            let (w, h) = shape(ch, 1, 5, 5);
            let img = gray(ch, w, h, &[0, 1, 128, 255]);
            let t = ch.pick(&[0u8, 1, 2, 127, 128, 129, 254, 255]);
            one(ch, &img, t)
        });
        r.section("nested", "all binary 4x4 (thorough 5x4) images inside one or two rings, with and without margin", |ch| {
            let (w, h) = if ch.thorough { (5, 4) } else { (4, 4) };
            let img = gray(ch, w, h, &[0, 200]);
            let rings = ch.u(1, 2);
            let m = ch.u(0, 1);
            let gap = ch.u(0, 1);
            // 1 ring pixel plus gap per ring
            let b = rings * (1 + gap) + m;
            let (bw, bh) = (w + 2 * b, h + 2 * b);
            let big = GrayImage::from_fn(bw, bh, |x, y| {
                let d = x.min(y).min(bw - 1 - x).min(bh - 1 - y);
                if d < m {
                    Luma([0])
                } else if d >= b {
                    *img.get_pixel(x - b, y - b)
                } else {
                    Luma([if (d - m) % (1 + gap) == 0 { 255 } else { 0 }])
                }
            });
            one(ch, &big, 0)
        });
        r.section("mosaics", "all 3x2 arrangements of 7 5x5 tiles, overlapping by 0 or 1 or separated by 1", |ch| {
            let k: Vec<usize> = (0..6).map(|_| ch.choose(if ch.thorough { 10 } else { 7 })).collect();
            let step = ch.u(4, 6);
            let img = GrayImage::from_fn(2 * step + 5, step + 5, |x, y| {
                let mut v = 0;
                for (i, &t) in k.iter().enumerate() {
                    let (ox, oy) = (i as u32 % 3 * step, i as u32 / 3 * step);
                    if x >= ox && y >= oy && x < ox + 5 && y < oy + 5 && tile(t, x - ox, y - oy) {
                        v = 255;
                    }
                }
                Luma([v])
            });
            one(ch, &img, 100)
        });
        r.section("large", "patterns, spirals, concentric frames up to 65x40, several thresholds", |ch| {
            let (w, h) = if ch.flag() { large_shape(ch) } else { ch.pick(&[(12, 9), (24, 20), (40, 33)]) };
            let k = ch.choose(NPAT + 3);
            let img = if k < NPAT {
                gray_pat(k, w, h)
            } else {
                GrayImage::from_fn(w, h, |x, y| {
                    let d = x.min(y).min(w - 1 - x).min(h - 1 - y);
                    Luma([match k - NPAT {
                        0 => (d % 2 == 0) as u8 * 255,
                        1 => (d % 2 == 1) as u8 * 255,
                        _ => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8 * 255,
                    }])
                })
            };
            let t = ch.pick(&[0u8, 60, 150, 245]);
            one(ch, &img, t)
        });
        r.section("huge", "frames, combs, grids of dots and of rings (thousands of contours) with sides beyond 2^8 and 2^16", |ch| {
            let (w, h) = if ch.flag() { ch.pick(&[(300, 260), (520, 40), (40, 520)]) } else { huge_shape(ch) };
            let k = ch.choose(6);
            let img = GrayImage::from_fn(w, h, |x, y| {
                let d = x.min(y).min(w - 1 - x).min(h - 1 - y);
                Luma([match k {
                    0 => (d == 0 || d == 5 || (d > 20 && d < 24)) as u8 * 255,
                    1 => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8 * 255,
                    2 => (x % 3 == 0 && y % 3 == 0) as u8 * 10,
                    3 => (x % 5 < 4 && y % 5 < 4 && (x % 5 % 3 == 0 || y % 5 % 3 == 0)) as u8 * 10,
                    4 => (x % 5 % 3 == 0 || y % 5 % 3 == 0) as u8 * 200,
                    _ => 200,
                }])
            });
            one(ch, &img, 0)
        });
        r.section("empty", "images without rows or columns have no contours; coordinate types", |ch| {
            let (w, h) = ch.pick(&[(0, 0), (0, 3), (3, 0)]);
            check!(find_contours::<i32>(&GrayImage::new(w, h)).is_empty(), "contours of nothing");
            let img = gray_pat(ch.choose(NPAT), 9, 8);
            let a = find_contours::<u32>(&img);
            let b = find_contours::<i64>(&img);
            ch.ops(3);
            check!(a.len() == b.len(), "number of contours depends on the type");
            for (a, b) in a.iter().zip(&b) {
                check!(a.border_type == b.border_type && a.parent == b.parent, "type or parent");
                check!(a.points.iter().map(|p| (p.x as i64, p.y as i64)).eq(b.points.iter().map(|p| (p.x, p.y))), "points");
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025; frames, serpentines, rings, dots, noise", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.choose(6);
            let img = GrayImage::from_fn(w, h, |x, y| {
                let d = x.min(y).min(w - 1 - x).min(h - 1 - y);
                Luma([match k {
                    0 => (d % 2 == 0) as u8 * 255,
                    1 => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8 * 255,
                    2 => (x % 3 == 0) as u8 * 10,
                    3 => (x % 5 < 4 && (x % 5 % 3 == 0 || y % 5 % 3 == 0)) as u8 * 10,
                    4 => (pat(0, x, y, 0, w, h) > 110) as u8,
                    _ => 200,
                }])
            });
            one(ch, &img, 0)
        });
        r.section("threshold-ladder", "every threshold 0..=255 on images that hold all grey levels: ramps across and down, patterns, rings of falling brightness", |ch| {
            let t = ch.choose(256) as u8;
            let k = ch.choose(6);
            let img = match k {
                0 => GrayImage::from_fn(16, 16, |x, y| Luma([(y * 16 + x) as u8])),
                1 => GrayImage::from_fn(16, 16, |x, y| Luma([(255 - (x * 16 + y)) as u8])),
                2 => gray_pat(0, 17, 9),
                3 => gray_pat(6, 20, 13),
                4 => GrayImage::from_fn(33, 29, |x, y| Luma([((x.min(32 - x)).min(y.min(28 - y)) * 37) as u8])),
                _ => GrayImage::from_fn(257, 3, |x, y| Luma([if y == 1 { x as u8 } else { 255 - x as u8 }])),
            };
            one(ch, &img, t)
        });
    });
}
