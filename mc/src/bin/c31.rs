//! C31: histograms of oriented gradients.
use image::*;
use imageproc::drawing::draw_line_segment_mut;
use imageproc::hog::*;
use mc::*;
use std::f64::consts::PI;

/// Cell histograms [cy][cx][orientation], in double precision, and the total gradient magnitude.
fn cells(img: &GrayImage, o: &HogOptions) -> (Vec<Vec<Vec<f64>>>, f64) {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let cs = o.cell_side as i64;
    let (cw, chh) = ((w / cs) as usize, (h / cs) as usize);
    let mut g = vec![vec![vec![0.0; o.orientations]; cw]; chh];
    let range = if o.signed { 2.0 * PI } else { PI };
    let mut total = 0.0;
    for y in 0..h {
        for x in 0..w {
            let p = |dx: i64, dy: i64| clamped(img, x + dx, y + dy) as i64;
            let a = p(1, -1) + 2 * p(1, 0) + p(1, 1) - p(-1, -1) - 2 * p(-1, 0) - p(-1, 1);
            let b = p(-1, 1) + 2 * p(0, 1) + p(1, 1) - p(-1, -1) - 2 * p(0, -1) - p(1, -1);
            let m = ((a * a + b * b) as f64).sqrt();
            total += m;
            let pos = ((b as f64).atan2(a as f64).rem_euclid(range)) / (range / o.orientations as f64);
            let o0 = pos.floor();
            let fo = pos - o0;
            let (cx, cy) = (x as f64 / cs as f64, y as f64 / cs as f64);
            for (iy, wy) in [(cy.floor(), 1.0 - cy.fract()), (cy.floor() + 1.0, cy.fract())] {
                for (ix, wx) in [(cx.floor(), 1.0 - cx.fract()), (cx.floor() + 1.0, cx.fract())] {
                    if (iy as usize) < chh && (ix as usize) < cw {
                        for (io, wo) in [(o0, 1.0 - fo), (o0 + 1.0, fo)] {
                            g[iy as usize][ix as usize][io as usize % o.orientations] += m * wx * wy * wo / (cs * cs) as f64;
                        }
                    }
                }
            }
        }
    }
    (g, total)
}

fn valid(w: usize, h: usize, o: &HogOptions) -> bool {
    if o.cell_side == 0 || o.block_stride == 0 || o.orientations == 0 || w % o.cell_side != 0 || h % o.cell_side != 0 {
        return false;
    }
    let (cw, chh) = (w / o.cell_side, h / o.cell_side);
    cw >= o.block_side && chh >= o.block_side && (cw - o.block_side) % o.block_stride == 0 && (chh - o.block_side) % o.block_stride == 0
}

fn descriptor(ch: &mut Ch, img: &GrayImage, o: HogOptions) -> R {
    ch.op();
    let (w, h) = (img.width() as usize, img.height() as usize);
    let got = hog(img, o);
    let spec = HogSpec::from_options(w as u32, h as u32, o);
    check!(got.is_ok() == spec.is_ok(), "{o:?} on {w}x{h}: hog and HogSpec::from_options disagree");
    if o.block_side == 0 && valid(w, h, &o) {
        // blocks without cells: rejected, or an empty descriptor
        if let (Ok(d), Ok(s)) = (&got, &spec) {
            check!(d.is_empty() && s.descriptor_length() == 0, "{o:?} on {w}x{h}: descriptor of length {}", d.len());
        }
        return Ok(());
    }
    check!(got.is_ok() == valid(w, h, &o), "{o:?} on {w}x{h}: {:?}", got.as_ref().map(|d| d.len()));
    let (Ok(d), Ok(spec)) = (got, spec) else { return Ok(()) };
    let (cw, chh) = (w / o.cell_side, h / o.cell_side);
    let (bw, bh) = ((cw - o.block_side) / o.block_stride + 1, (chh - o.block_side) / o.block_stride + 1);
    let want_len = bw * bh * o.block_side * o.block_side * o.orientations;
    check!(
        d.len() == want_len && spec.descriptor_length() == want_len,
        "{o:?} on {w}x{h}: length {}, declared {}, expected {want_len}",
        d.len(),
        spec.descriptor_length()
    );
    let (g, total) = cells(img, &o);
    let sum: f64 = g.iter().flatten().flatten().sum::<f64>() * (o.cell_side * o.cell_side) as f64;
    assert!(sum <= total + 1e-6);
    let mut i = 0;
    for by in 0..bh {
        for bx in 0..bw {
            let mut block = vec![];
            for iy in 0..o.block_side {
                for ix in 0..o.block_side {
                    block.extend_from_slice(&g[by * o.block_stride + iy][bx * o.block_stride + ix]);
                }
            }
            let norm = block.iter().map(|v| v * v).sum::<f64>().sqrt();
            let mut n2 = 0.0;
            for (k, v) in block.iter().enumerate() {
                let want = if norm > 1e-9 { v / norm } else { 0.0 };
                let got = d[i] as f64;
                check!(
                    got >= 0.0 && (got - want).abs() <= 1e-3,
                    "{o:?} on {}: block ({bx},{by}) entry {k} is {got} instead of {want}",
                    show(img)
                );
                n2 += got * got;
                i += 1;
            }
            check!(n2.sqrt() <= 1.0 + 1e-4, "{o:?}: block ({bx},{by}) has norm {}", n2.sqrt());
        }
    }
    ch.observe(d.iter().fold(0u64, |a, v| a.wrapping_mul(31).wrapping_add(v.to_bits() as u64)));
    Ok(())
}

fn render(ch: &mut Ch, img: &GrayImage, o: HogOptions, star: u32) -> R {
    ch.op();
    let spec = match HogSpec::from_options(img.width(), img.height(), o) {
        Ok(s) => s,
        Err(e) => fail!("{o:?} rejected: {e}"),
    };
    let mut grid = cell_histograms(img, spec);
    let out = render_hist_grid(star, &grid.view_mut(), o.signed);
    let (g, _) = cells(img, &o);
    let (cw, chh) = (img.width() / o.cell_side as u32, img.height() / o.cell_side as u32);
    check!(
        out.dimensions() == (cw * star, chh * star),
        "rendering {cw}x{chh} cells with side {star} gives {}x{}",
        out.width(),
        out.height()
    );
    for cy in 0..chh {
        for cx in 0..cw {
            let hist = &g[cy as usize][cx as usize];
            let draw = |e: f64| {
                let mut win = GrayImage::new(star, star);
                for (b, v) in hist.iter().enumerate() {
                    let c = Luma([(v + e).clamp(0.0, 255.0) as u8]);
                    let n = hist.len() as f32;
                    let mut dirs = vec![];
                    let full = 2f32 * std::f32::consts::PI;
                    if o.signed {
                        dirs.push(full * b as f32 / n);
                    } else {
                        dirs.push(std::f32::consts::PI * b as f32 / n);
                        dirs.push(std::f32::consts::PI * b as f32 / n + std::f32::consts::PI);
                    }
                    for t in dirs {
                        let s = star as f32 / 2.0;
                        let c0 = (star / 2) as f32;
                        draw_line_segment_mut(&mut win, (c0, c0), (c0 - s * t.sin(), c0 + s * t.cos()), c);
                    }
                }
                win
            };
            let (lo, hi) = (draw(-2e-3), draw(2e-3));
            for y in 0..star {
                for x in 0..star {
                    let p = out.get_pixel(cx * star + x, cy * star + y)[0];
                    let (l, h) = (lo.get_pixel(x, y)[0], hi.get_pixel(x, y)[0]);
                    check!(
                        l <= p && p <= h,
                        "{o:?} on {}: star of cell ({cx},{cy}) of side {star} at ({x},{y}) is {p} instead of {l}",
                        show(img)
                    );
                }
            }
        }
    }
    ch.observe_bytes(out.as_raw());
    Ok(())
}

fn main() {
    run("C31", |r| {
        r.section("options", "all image sizes 0..9 x 0..9 (thorough 11) x orientations 0..3 x cell side 0..4 x block side 0..4 x stride 0..3 x signed", |ch| {
            let m = if ch.thorough { 11 } else { 9 };
            let (w, h) = (ch.u(0, m), ch.u(0, m));
            let o = HogOptions {
                orientations: ch.u(0, 3) as usize,
                signed: ch.flag(),
                cell_side: ch.u(0, 4) as usize,
                block_side: ch.u(0, 4) as usize,
                block_stride: ch.u(0, 3) as usize,
            };
            check!(HogOptions::new(o.orientations, o.signed, o.cell_side, o.block_side, o.block_stride) == o, "HogOptions::new");
            let img = gray_pat(0, w, h);
            descriptor(ch, &img, o)
        });
        r.section("extreme-options", "options at 0, 1, 2, half and end of usize", |ch| {
            let v = [0usize, 1, 2, usize::MAX / 2, usize::MAX];
            let (w, h) = (ch.u(0, 3), ch.u(0, 3));
            let o = HogOptions {
                orientations: ch.pick(&[0, 1, 9]),
                signed: ch.flag(),
                cell_side: ch.pick(&v),
                block_side: ch.pick(&v),
                block_stride: ch.pick(&v),
            };
            let img = gray_pat(2, w, h);
            descriptor(ch, &img, o)
        });
        r.section("constant", "constant images of all levels: zero descriptors", |ch| {
            let v = ch.choose(256) as u8;
            let (w, h) = ch.pick(&[(4u32, 4u32), (8, 4), (2, 6)]);
            let o = HogOptions::new(ch.u(1, 9) as usize, ch.flag(), 2, 1, 1);
            ch.op();
            let d = hog(&GrayImage::from_pixel(w, h, Luma([v])), o);
            match d {
                Ok(d) => check!(d.iter().all(|&x| x == 0.0), "constant {v}: {d:?}"),
                Err(e) => fail!("{o:?} rejected: {e}"),
            }
            Ok(())
        });
        r.section("all-images", "all 3x3, 2x4 and 4x2 images over {0, 60, 255} x cell side x orientations 1..9 x signed, blocks of one and more cells", |ch| {
            let (w, h, cs, bs, st) = ch.pick(&[(3u32, 3u32, 1usize, 1usize, 1usize), (3, 3, 3, 1, 1), (3, 3, 1, 2, 1), (2, 4, 2, 1, 1), (4, 2, 1, 2, 2), (2, 2, 1, 2, 1)]);
            let o = HogOptions::new(ch.pick(&[1usize, 2, 3, 4, 8, 9]), ch.flag(), cs, bs, st);
            let img = mc::gray(ch, w, h, &[0, 60, 255]);
            descriptor(ch, &img, o)
        });
        r.section("family", "patterns and impulses on images 6x6, 8x4, 4x12, 12x12 x option sets", |ch| {
            let (w, h) = ch.pick(&[(6u32, 6u32), (8, 4), (4, 12), (12, 12)]);
            let signed = ch.flag();
            let n = ch.pick(&[1usize, 2, 4, 7, 8, 9, 12]);
            let (cs, bs, st) = ch.pick(&[(1usize, 2usize, 1usize), (2, 1, 1), (2, 2, 1), (2, 2, 2), (4, 1, 2), (4, 1, 1), (3, 2, 1), (6, 1, 1), (6, 2, 1), (12, 1, 1)]);
            let o = HogOptions::new(n, signed, cs, bs, st);
            let img = gray_family(ch, w, h);
            descriptor(ch, &img, o)
        });
        r.section("large", "patterns on images up to 256x128 and 1200x8, cells of side 4..40, up to 36 orientations, overlapping and disjoint blocks", |ch| {
            let (w, h) = ch.pick(&[(64u32, 128u32), (128, 64), (256, 128), (1200, 8), (8, 1200), (120, 80)]);
            let (cs, bs, st) = ch.pick(&[(8usize, 2usize, 1usize), (8, 1, 1), (4, 2, 2), (4, 2, 1), (16, 2, 2), (40, 1, 1), (40, 2, 1), (8, 8, 8)]);
            let n = ch.pick(&[9usize, 18, 36]);
            let o = HogOptions::new(n, ch.flag(), cs, bs, st);
            let k = ch.pick(&[0usize, 2, 4, 7, 9]);
            descriptor(ch, &gray_pat(k, w, h), o).map_err(|f| Fail::from(format!("pattern {k}: {}", f.msg.chars().take(300).collect::<String>())))
        });
        r.section("faint", "images 64x64, 40x80 and 128x8 of one level with one pixel, column or row brighter or darker by 1, 2 or 7, at every 5th position, cells of side 8, 40, 64, 1: blocks are normalised all the same", |ch| {
            let (w, h, cs) = ch.pick(&[(64u32, 64u32, 64usize), (64, 64, 8), (40, 80, 40), (128, 8, 8), (10, 10, 1), (256, 256, 256)]);
            let d = ch.pick(&[1i32, -1, 2, 7]);
            let st = if ch.thorough { 1 } else { 5 };
            let (x, y) = (ch.u(0, 63 / st) * st, ch.u(0, 63 / st) * st);
            let kind = ch.choose(3);
            if x >= w || y >= h || kind == 1 && y > 0 || kind == 2 && x > 0 {
                return ch.reject();
            }
            let img = GrayImage::from_fn(w, h, |px, py| Luma([(100 + if (kind == 1 || py == y) && (kind == 2 || px == x) { d } else { 0 }) as u8]));
            let o = HogOptions::new(ch.pick(&[4usize, 9]), ch.flag(), cs, ch.pick(&[1usize, 2]).min(w as usize / cs).min(h as usize / cs), 1);
            descriptor(ch, &img, o).map_err(|f| Fail::from(f.msg.chars().take(300).collect::<String>()))
        });
        r.section("edges", "ramps in all directions (steps -9..9 in x and y): the gradient falls into the right bins", |ch| {
            let (dx, dy) = (ch.int(-9, 9), ch.int(-9, 9));
            let img = GrayImage::from_fn(6, 6, |x, y| Luma([(128 + dx * (x as i64 - 3) + dy * (y as i64 - 3)).clamp(0, 255) as u8]));
            let o = HogOptions::new(ch.u(1, 18) as usize, ch.flag(), ch.pick(&[2, 3]), 1, 1);
            descriptor(ch, &img, o)
        });
        r.section("rendering", "stars of side 0..17 (thorough 25) for 1..9 orientations, grids up to 3x2 cells, patterns of low contrast", |ch| {
            let star = ch.u(0, if ch.thorough { 25 } else { 17 });
            let n = ch.pick(&[1usize, 2, 3, 4, 5, 8, 9]);
            let signed = ch.flag();
            let (w, h, cs) = ch.pick(&[(2u32, 2u32, 2usize), (4, 2, 2), (2, 4, 2), (9, 6, 3), (2, 2, 1), (3, 0, 3), (8, 12, 4)]);
            let k = ch.choose(NPAT);
            let contrast = ch.pick(&[8u8, 1]);
            let img = GrayImage::from_fn(w, h, |x, y| Luma([pat(k, x, y, 0, w, h) / contrast]));
            render(ch, &img, HogOptions::new(n, signed, cs, if h == 0 { 0 } else { 1 }, 1), star)
        });
        r.section("option-ladder", "every number of orientations 1..=130, every cell side 1..=40, every block side 1..=12 with every stride that fits, signed and unsigned", |ch| {
            let signed = ch.flag();
            match ch.choose(3) {
                0 => {
                    let n = ch.u(1, 130) as usize;
                    let k = ch.pick(&[0usize, 2, 4, 7, 9]);
                    descriptor(ch, &gray_pat(k, 8, 8), HogOptions::new(n, signed, 4, 1, 1))
                }
                1 => {
                    let c = ch.u(1, 40);
                    let k = ch.pick(&[0usize, 2, 9]);
                    descriptor(ch, &gray_pat(k, 2 * c, c), HogOptions::new(9, signed, c as usize, 1, 1))
                }
                _ => {
                    let b = ch.u(1, 12);
                    let st = ch.u(1, 13);
                    let more = ch.u(0, 2);
                    let k = ch.pick(&[0usize, 9]);
                    descriptor(ch, &gray_pat(k, 2 * (b + st * more), 2 * b), HogOptions::new(4, signed, 2, b as usize, st as usize))
                }
            }
            .map_err(|f| Fail::from(f.msg.chars().take(400).collect::<String>()))
        });
    });
}
