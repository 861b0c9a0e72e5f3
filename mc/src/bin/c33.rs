//! C33: local binary patterns.
use image::*;
use imageproc::local_binary_patterns::*;
use mc::*;

const POS: [(i64, i64); 8] = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];

fn reference(img: &GrayImage, x: u32, y: u32) -> Option<u8> {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let (x, y) = (x as i64, y as i64);
    if x < 1 || y < 1 || x >= w - 1 || y >= h - 1 {
        return None;
    }
    let c = img.get_pixel(x as u32, y as u32)[0];
    let mut b = 0;
    for (i, (dx, dy)) in POS.iter().enumerate() {
        if img.get_pixel((x + dx) as u32, (y + dy) as u32)[0] < c {
            b |= 1 << i;
        }
    }
    Some(b)
}

fn one(ch: &mut Ch, img: &GrayImage) -> R {
    for y in 0..img.height() + 2 {
        for x in 0..img.width() + 2 {
            ch.op();
            let (g, e) = (local_binary_pattern(img, x, y), reference(img, x, y));
            check!(g == e, "at ({x},{y}): got {g:?}, expected {e:?}; {}", show(img));
            if let Some(g) = g {
                ch.observe(g as u64);
            }
        }
    }
    Ok(())
}

fn rotl(b: u8, k: u32) -> u8 {
    (((b as u32) << k) | ((b as u32) >> (8 - k))) as u8
}

fn main() {
    run("C33", |r| {
        r.section("bytes", "all 256 bytes: minimum shift, transitions, both tables", |ch| {
            let b = ch.choose(256) as u8;
            ch.ops(4);
            let min = (0..8).map(|k| rotl(b, k)).min().unwrap();
            let tr = (0..8).filter(|&i| (b >> i) & 1 != (b >> ((i + 1) % 8)) & 1).count() as u32;
            check!(min_shift(b) == min, "min_shift({b}) = {}, expected {min}", min_shift(b));
            check!(count_transitions(b) == tr, "count_transitions({b}) = {}, expected {tr}", count_transitions(b));
            check!(MIN_SHIFT[b as usize] == min, "MIN_SHIFT[{b}] = {}, expected {min}", MIN_SHIFT[b as usize]);
            let u = if tr <= 2 { min } else { 0b1010_1010 };
            let g = UNIFORM_REPRESENTATIVE_2[b as usize];
            check!(g == u, "UNIFORM_REPRESENTATIVE_2[{b}] = {g}, expected {u}");
            Ok(())
        });
        r.section("neighbourhoods", "all 3x3 images over {0,1,2}, every position including outside", |ch| {
            let img = gray(ch, 3, 3, &[1, 0, 2]);
            one(ch, &img)
        });
        r.section("values", "all pairs centre, neighbour of 8-bit values at each of the 8 positions", |ch| {
            let i = ch.choose(8);
            let c = ch.choose(256) as u8;
            for v in 0..=255u8 {
                // all the other neighbours equal the centre: not darker
                let mut img = GrayImage::from_pixel(3, 3, Luma([c]));
                img.put_pixel((1 + POS[i].0) as u32, (1 + POS[i].1) as u32, Luma([v]));
                let e = ((v < c) as u8) << i;
                ch.op();
                check!(local_binary_pattern(&img, 1, 1) == Some(e), "centre {c}, neighbour {i} = {v}");
            }
            Ok(())
        });
        r.section("huge", "patterns on shapes with sides beyond 2^8 and 2^16, all positions", |ch| {
            let (w, h) = huge_shape(ch);
            let img = gray_pat(ch.choose(3), w, h);
            one(ch, &img)
        });
        r.section("shapes", "patterns on all shapes 0..5 x 0..5 and larger, all positions", |ch| {
            let (w, h) = if ch.flag() { large_shape(ch) } else { (ch.u(0, 5), ch.u(0, 5)) };
            let img = gray_pat(ch.choose(NPAT), w, h);
            one(ch, &img)?;
            for (x, y) in [(u32::MAX, 1), (1, u32::MAX), (u32::MAX, u32::MAX)] {
                check!(local_binary_pattern(&img, x, y).is_none(), "pattern outside the image");
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: two patterns, all positions", |ch| {
            let (w, h) = sweep_shape(ch);
            let img = gray_pat(ch.pick(&[0, 6]), w, h);
            one(ch, &img)
        });
        r.section("views", "patterns of windows of images: every window of a 6x5 image x 3 patterns, every position", |ch| {
            let mut img = gray_pat(ch.pick(&[0, 6, 7]), 6, 5);
            let (x, y) = (ch.u(0, 5), ch.u(0, 4));
            let (w, h) = (ch.u(0, 6 - x), ch.u(0, 5 - y));
            let cut = imageops::crop_imm(&img, x, y, w, h).to_image();
            for j in 0..h + 2 {
                for i in 0..w + 2 {
                    ch.op();
                    let (g, e) = (local_binary_pattern(&*img.sub_image(x, y, w, h), i, j), reference(&cut, i, j));
                    check!(g == e, "window {w}x{h} at ({x},{y}), position ({i},{j}): got {g:?}, expected {e:?}");
                }
            }
            Ok(())
        });
    });
}
