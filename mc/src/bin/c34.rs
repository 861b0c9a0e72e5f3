//! C34: seam carving.
use image::*;
use imageproc::definitions::HasBlack;
use imageproc::map::WithChannel;
use imageproc::seam_carving::*;
use mc::*;

/// Gradient energy: mean over channels of the truncated Sobel magnitude.
fn energy<P: Pixel<Subpixel = u8>>(img: &Img<P>) -> Vec<Vec<u64>> {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let cc = P::CHANNEL_COUNT as usize;
    (0..h)
        .map(|y| {
            (0..w)
                .map(|x| {
                    let s: u64 = (0..cc)
                        .map(|c| {
                            let g = |dx: i64, dy: i64| {
                                img.get_pixel((x + dx).clamp(0, w - 1) as u32, (y + dy).clamp(0, h - 1) as u32).channels()[c] as i64
                            };
                            let a = g(1, -1) + 2 * g(1, 0) + g(1, 1) - g(-1, -1) - 2 * g(-1, 0) - g(-1, 1);
                            let b = g(-1, 1) + 2 * g(0, 1) + g(1, 1) - g(-1, -1) - 2 * g(0, -1) - g(1, -1);
                            ((a * a + b * b) as f64).sqrt().floor() as u64
                        })
                        .sum();
                    s / cc as u64
                })
                .collect()
        })
        .collect()
}

fn minimum(e: &[Vec<u64>]) -> u64 {
    let mut row = e[0].clone();
    for r in &e[1..] {
        row = (0..r.len())
            .map(|x| {
                let lo = x.saturating_sub(1);
                let hi = (x + 1).min(r.len() - 1);
                r[x] + row[lo..=hi].iter().min().unwrap()
            })
            .collect();
    }
    *row.iter().min().unwrap()
}

/// Column of the seam in each row (top to bottom), seen through what removing it deletes.
fn columns(seam: &VerticalSeam, w: u32, h: u32) -> Result<Vec<usize>, Fail> {
    let idx: Img<Luma<u32>> = ImageBuffer::from_fn(w, h, |x, y| Luma([y * w + x]));
    let cut = remove_vertical_seam(&idx, seam);
    check!(cut.dimensions() == (w - 1, h), "removing a seam from {w}x{h} gives {}x{}", cut.width(), cut.height());
    let mut cols = vec![];
    for y in 0..h {
        let row: Vec<u32> = (0..w - 1).map(|x| cut.get_pixel(x, y)[0]).collect();
        let c = (0..w - 1).find(|&x| row[x as usize] != y * w + x).unwrap_or(w - 1);
        let want: Vec<u32> = (0..w).filter(|&x| x != c).map(|x| y * w + x).collect();
        check!(row == want, "removing a seam from row {y} of {w} columns leaves {row:?}");
        cols.push(c as usize);
    }
    Ok(cols)
}

fn cut<P: Pixel>(img: &Img<P>, cols: &[usize]) -> Img<P> {
    ImageBuffer::from_fn(img.width() - 1, img.height(), |x, y| {
        *img.get_pixel(if (x as usize) < cols[y as usize] { x } else { x + 1 }, y)
    })
}

fn carve<P>(ch: &mut Ch, img: &Img<P>, gray: Option<&GrayImage>) -> R
where
    P: Pixel<Subpixel = u8> + WithChannel<u16> + WithChannel<i16> + PartialEq,
    <P as WithChannel<u16>>::Pixel: HasBlack,
{
    carve_some(ch, img, gray, u32::MAX)
}

/// Removes up to `most` seams.
fn carve_some<P>(ch: &mut Ch, img: &Img<P>, gray: Option<&GrayImage>, most: u32) -> R
where
    P: Pixel<Subpixel = u8> + WithChannel<u16> + WithChannel<i16> + PartialEq,
    <P as WithChannel<u16>>::Pixel: HasBlack,
{
    let (w, h) = img.dimensions();
    let most = most.min(w);
    ch.log(|| show(img));
    let mut cur = img.clone();
    // original column of every remaining pixel
    let mut orig: Vec<Vec<u32>> = (0..h).map(|_| (0..w).collect()).collect();
    let mut red = vec![vec![false; w as usize]; h as usize];
    let mut seams: Vec<VerticalSeam> = vec![];
    let same = |a: &Img<P>, b: &Img<P>| a.dimensions() == b.dimensions() && a.as_raw() == b.as_raw();
    check!(same(&shrink_width(img, w), img), "shrinking to the same width changes the image");
    while cur.width() >= 2 && cur.width() > w - most {
        ch.op();
        let before = cur.clone();
        let seam = find_vertical_seam(&cur);
        check!(same(&cur, &before), "finding a seam changed the image");
        let cols = columns(&seam, cur.width(), h)?;
        let e = energy(&cur);
        let total: u64 = (0..h as usize).map(|y| e[y][cols[y]]).sum();
        for y in 1..h as usize {
            check!(
                cols[y].abs_diff(cols[y - 1]) <= 1,
                "{}: seam {cols:?} is not connected at row {y}",
                show(&cur)
            );
        }
        let best = if h == 0 { 0 } else { minimum(&e) };
        check!(total == best, "{}: seam {cols:?} has energy {total}, the minimum is {best}", show(&cur));
        ch.observe(total ^ (cols.iter().fold(0u64, |a, &c| a.wrapping_mul(31).wrapping_add(c as u64)) << 20));
        let next = remove_vertical_seam(&cur, &seam);
        check!(same(&next, &cut(&cur, &cols)), "removing the seam from the image");
        for y in 0..h as usize {
            let x = orig[y].remove(cols[y]);
            red[y][x as usize] = true;
        }
        seams.push(seam);
        cur = next;
        let shrunk = shrink_width(img, cur.width());
        check!(same(&shrunk, &cur), "shrink_width to {} differs from successive removals", cur.width());
        if let Some(g) = gray {
            let drawn = draw_vertical_seams(g, &seams);
            check!(drawn.dimensions() == g.dimensions(), "dimensions of the drawing");
            for y in 0..h {
                for x in 0..w {
                    let v = g.get_pixel(x, y)[0];
                    let want = if red[y as usize][x as usize] { [255, 0, 0] } else { [v, v, v] };
                    check!(
                        drawn.get_pixel(x, y).0 == want,
                        "{}: after drawing {} seams ({x},{y}) is {:?} instead of {want:?}",
                        show(g),
                        seams.len(),
                        drawn.get_pixel(x, y).0
                    );
                }
            }
        }
    }
    ch.add_traces(1);
    Ok(())
}

/// Seams found on a grey image, removed from an image of the same size and another pixel type.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel,
    P::Subpixel: Val,
{
    let (w, h) = ch.pick(&[(2, 1), (3, 4), (5, 3), (9, 7), (1, 3), (4, 0)]);
    let k = ch.choose(NPAT);
    let mut g = gray_pat(k, w, h);
    let mut img: Img<P> = timg(w, h, k as u32);
    ch.log(|| format!("{} x{} {w}x{h} pattern {k}", P::Subpixel::NAME, P::CHANNEL_COUNT));
    while g.width() >= 2 {
        ch.op();
        let seam = find_vertical_seam(&g);
        let cols = columns(&seam, g.width(), h)?;
        let next = remove_vertical_seam(&img, &seam);
        if let Some(d) = tdiff(&next, &cut(&img, &cols)) {
            fail!("removing seam {cols:?}: {d}");
        }
        img = next;
        g = remove_vertical_seam(&g, &seam);
    }
    Ok(())
}

fn main() {
    run("C34", |r| {
        r.section("gray", "all gray images of area up to 10 (thorough 12) over {0, 90, 255}, all seams down to width 1, every width, all prefixes drawn", |ch| {
            let m = if ch.thorough { 12 } else { 10 };
            let mut s = vec![];
            for w in 2..=m {
                for h in 1..=m {
                    if w * h <= m {
                        s.push((w, h));
                    }
                }
            }
            let (w, h) = ch.pick(&s);
            let img = mc::gray(ch, w, h, &[0, 90, 255]);
            carve(ch, &img, Some(&img))
        });
        r.section("gray-two", "all gray images of area up to 16 (thorough 20) over {0, 200}", |ch| {
            let m = if ch.thorough { 20 } else { 16 };
            let mut s = vec![];
            for w in 2..=5 {
                for h in 1..=5 {
                    if w * h <= m {
                        s.push((w, h));
                    }
                }
            }
            let (w, h) = ch.pick(&s);
            let img = mc::gray(ch, w, h, &[0, 200]);
            carve(ch, &img, Some(&img))
        });
        r.section("rgb", "all RGB images of area up to 6 over 4 colours", |ch| {
            let (w, h) = ch.pick(&[(2u32, 1u32), (3, 1), (2, 2), (2, 3), (3, 2), (6, 1), (5, 1)]);
            let img = img_of::<Rgb<u8>>(ch, w, h, &[Rgb([0, 0, 0]), Rgb([255, 10, 90]), Rgb([0, 255, 3]), Rgb([255, 255, 255])]);
            carve(ch, &img, None)
        });
        r.section("alpha-channels", "all gray+alpha and RGBA images of area up to 6 over 3 colours", |ch| {
            let (w, h) = ch.pick(&[(2u32, 2u32), (2, 3), (3, 2), (4, 1)]);
            if ch.flag() {
                let img = img_of::<LumaA<u8>>(ch, w, h, &[LumaA([0, 0]), LumaA([255, 10]), LumaA([3, 255])]);
                carve(ch, &img, None)
            } else {
                let img = img_of::<Rgba<u8>>(ch, w, h, &[Rgba([0, 0, 0, 255]), Rgba([255, 255, 255, 255]), Rgba([255, 0, 40, 3])]);
                carve(ch, &img, None)
            }
        });
        r.section("patterns", "pattern and impulse images of all shapes 2..9 x 1..9, 12x5, 5x12, 20x3", |ch| {
            let big = ch.flag();
            let (w, h) = if big { ch.pick(&[(12, 5), (5, 12), (20, 3)]) } else { (ch.u(2, 9), ch.u(1, 9)) };
            let img = if big || w * h < if ch.thorough { 90 } else { 30 } { gray_family(ch, w, h) } else { gray_pat(ch.choose(NPAT), w, h) };
            carve(ch, &img, Some(&img))
        });
        r.section("tall-and-wide", "strong patterns (seam energies beyond 2^16 and 2^20) on images up to 2000 rows, 5 seams; wide and huge images, 1 seam", |ch| {
            let (w, h, n) = ch.pick(&[(4u32, 60u32, 4u32), (6, 300, 5), (9, 2000, 5), (300, 6, 20), (1000, 300, 1), (3, 66000, 1), (66000, 3, 1), (70001, 1, 1)]);
            let k = ch.choose(5);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    // every second pair of columns bright: full energy everywhere
                    0 => if x / 2 % 2 == 0 { 0 } else { 255 },
                    // a diagonal edge, wrapping around
                    1 => if (x + y) % 4 < 2 { 255 } else { 0 },
                    // hashed
                    2 => ((x.wrapping_mul(2654435761) ^ y.wrapping_mul(40503)).wrapping_mul(2246822519) >> 24) as u8,
                    // a cheap column far from both sides
                    3 => if x == w / 2 || x == w / 2 + 1 { 128 } else if (x + y) % 2 == 0 { 255 } else { 0 },
                    _ => (x * y % 251) as u8,
                }])
            });
            carve_some(ch, &img, (w * h < 10_000).then_some(&img), n).map_err(|f| Fail::from(format!("pattern {k} on {w}x{h}: {}", f.msg.chars().rev().take(200).collect::<String>().chars().rev().collect::<String>())))
        });
        r.section("empty", "images without rows", |ch| {
            let w = ch.u(2, 5);
            let img = GrayImage::new(w, 0);
            carve(ch, &img, Some(&img))
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: two patterns, 3 seams", |ch| {
            let (w, h) = sweep_shape(ch);
            if w < 2 {
                return ch.reject();
            }
            let k = ch.pick(&[0usize, 8]);
            let img = gray_pat(k, w, h);
            carve_some(ch, &img, Some(&img), 3).map_err(|f| Fail::from(format!("pattern {k} on {w}x{h}: {}", f.msg.chars().rev().take(200).collect::<String>().chars().rev().collect::<String>())))?;
            if w > 3 {
                carve_some(ch, &u8_pat::<Rgb<u8>>(k, w, h), None, 1)?;
            }
            Ok(())
        });
        r.section("types", "40 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed, unsigned and float): seams removed from images with extreme values", |ch| with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch)));
    });
}
