//! C26: line rasterisation.
use image::*;
use imageproc::definitions::Image;
use imageproc::drawing::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

type P = (i32, i32);
fn f(p: P) -> (f32, f32) {
    (p.0 as f32, p.1 as f32)
}

/// The coordinates of a Bresenham line between integer end points satisfy the definition.
fn check_line(a: P, b: P) -> Result<Vec<P>, Fail> {
    let n = (a.0 - b.0).abs().max((a.1 - b.1).abs());
    // at most one more than expected, should the iterator not end
    let v: Vec<P> = BresenhamLineIter::new(f(a), f(b)).take(n as usize + 3).collect();
    let fl = |m: String| Fail::from(format!("line {a:?} to {b:?}: {m}: {v:?}"));
    if v.len() as i32 != n + 1 {
        return Err(fl(format!("{} pixels, expected {}", v.len(), n + 1)));
    }
    let ends = (v[0], v[v.len() - 1]);
    if ends != (a, b) && ends != (b, a) {
        return Err(fl("does not join the end points".into()));
    }
    for w in v.windows(2) {
        let d = ((w[0].0 - w[1].0).abs(), (w[0].1 - w[1].1).abs());
        if d.0.max(d.1) != 1 {
            return Err(fl("not a step to a neighbour".into()));
        }
    }
    let (dx, dy) = ((b.0 - a.0) as i64, (b.1 - a.1) as i64);
    for p in &v {
        let (px, py) = ((p.0 - a.0) as i64, (p.1 - a.1) as i64);
        // offset along the minor axis is |cross| / max(|dx|, |dy|)
        if 2 * (px * dy - py * dx).abs() > dx.abs().max(dy.abs()) {
            return Err(fl(format!("{p:?} is more than half a pixel off")));
        }
    }
    Ok(v)
}

fn pixel_iters(ch: &mut Ch, w: u32, h: u32, a: P, b: P) -> R {
    let v = check_line(a, b)?;
    let inside = |p: &P| p.0 >= 0 && p.1 >= 0 && p.0 < w as i32 && p.1 < h as i32;
    let mut img: Image<Luma<u32>> = Image::from_fn(w, h, |x, y| Luma([y * 1000 + x]));
    ch.ops(2);
    let got: Vec<u32> = BresenhamLinePixelIter::new(&img, f(a), f(b)).map(|p| p[0]).collect();
    // end points off the image are moved to the nearest pixel of it
    let clamp = |p: P| (p.0.clamp(0, w as i32 - 1), p.1.clamp(0, h as i32 - 1));
    let v = if inside(&a) && inside(&b) { v } else { check_line(clamp(a), clamp(b))? };
    let e: Vec<u32> = v.iter().map(|p| p.1 as u32 * 1000 + p.0 as u32).collect();
    check!(got == e, "BresenhamLinePixelIter {a:?} to {b:?} on {w}x{h} visits {got:?}, expected {e:?} (1000 y + x)");
    let mut got_mut = vec![];
    for (i, p) in BresenhamLinePixelIterMut::new(&mut img, f(a), f(b)).enumerate() {
        got_mut.push(p[0]);
        p[0] = 1_000_000 + i as u32;
    }
    check!(got_mut == got, "mutable and shared pixel iterators differ for {a:?} to {b:?} on {w}x{h}");
    for (x, y, p) in img.enumerate_pixels() {
        let at = got.iter().position(|&g| g == y * 1000 + x);
        let e = at.map_or(y * 1000 + x, |i| 1_000_000 + i as u32);
        check!(p[0] == e, "BresenhamLinePixelIterMut wrote {} at ({x},{y}), expected {e}", p[0]);
    }
    ch.observe(got.len() as u64);
    Ok(())
}

fn segment(ch: &mut Ch, w: u32, h: u32, a: P, b: P) -> R {
    let v: std::collections::HashSet<P> = check_line(a, b)?.into_iter().collect();
    let img = gray_pat(1, w, h);
    let img = GrayImage::from_fn(w, h, |x, y| Luma([img.get_pixel(x, y)[0] % 128]));
    ch.op();
    let got = draw_line_segment(&img, f(a), f(b), Luma([200]));
    for (x, y, p) in got.enumerate_pixels() {
        let e = if v.contains(&(x as i32, y as i32)) { 200 } else { img.get_pixel(x, y)[0] };
        check!(p[0] == e, "draw_line_segment {a:?} to {b:?} on {w}x{h}: ({x},{y}) = {}, expected {e}", p[0]);
    }
    Ok(())
}

/// Weights given to each pixel.
fn antialiased(ch: &mut Ch, w: u32, h: u32, a: P, b: P) -> R {
    type Q = Rgb<u16>;
    let img: Image<Q> = Image::from_fn(w, h, |x, y| Rgb([x as u16, y as u16, 0]));
    let seen: RefCell<BTreeMap<P, f32>> = RefCell::new(BTreeMap::new());
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let color = Rgb([9999u16, 9998, 9997]);
    ch.op();
    let got = draw_antialiased_line_segment(&img, a, b, color, |c, o, wt| {
        if c != color {
            *bad.borrow_mut() = Some(format!("line colour {c:?}"));
        }
        let p = (o[0] as i32, o[1] as i32);
        if o[2] != 0 || seen.borrow_mut().insert(p, wt).is_some() {
            *bad.borrow_mut() = Some(format!("pixel {p:?} blended twice"));
        }
        Rgb([o[0], o[1], 1 + (wt * 1000.0).round() as u16])
    });
    let what = format!("antialiased segment {a:?} to {b:?} on {w}x{h}");
    if let Some(b) = bad.borrow().as_ref() {
        fail!("{what}: {b}");
    }
    let seen = seen.borrow();
    // ideal weights: 1 - distance along the minor axis
    let (dx, dy) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
    let steep = dy.abs() > dx.abs();
    // the position along the minor axis is accumulated in single precision
    let eps = if w.max(h) > 100 { 1e-2 } else { 1e-3 };
    for y in 0..h as i32 {
        for x in 0..w as i32 {
            let (major, minor, m0, n0, m1, s) = if steep {
                (y, x as f64, a.1, a.0 as f64, b.1, dx / dy)
            } else {
                (x, y as f64, a.0, a.1 as f64, b.0, if dx == 0.0 { 0.0 } else { dy / dx })
            };
            let e = if major < m0.min(m1) || major > m0.max(m1) {
                0.0
            } else {
                (1.0 - (minor - (n0 + s * (major - m0) as f64)).abs()).max(0.0)
            };
            let g = seen.get(&(x, y)).map(|v| *v as f64);
            let p = got.get_pixel(x as u32, y as u32);
            match g {
                None => {
                    check!(e < eps, "{what}: ({x},{y}) is not blended, expected weight {e}");
                    check!(p == img.get_pixel(x as u32, y as u32), "{what}: ({x},{y}) changed without blending");
                }
                Some(g) => {
                    check!((0.0..=1.0).contains(&g), "{what}: weight {g} at ({x},{y})");
                    check!((g - e).abs() < eps, "{what}: weight {g} at ({x},{y}), expected {e}");
                    check!(p[2] == 1 + (g as f32 * 1000.0).round() as u16, "{what}: ({x},{y}) does not hold the blend");
                }
            }
        }
    }
    // the two pixels of each step
    let step = |p: &P| if steep { p.1 } else { p.0 };
    let mut sums: BTreeMap<i32, (f64, usize)> = BTreeMap::new();
    for (p, wt) in seen.iter() {
        let e = sums.entry(step(p)).or_default();
        e.0 += *wt as f64;
        e.1 += 1;
    }
    for (s, (sum, n)) in sums {
        check!(n <= 2 && sum <= 1.0 + 1e-5, "{what}: {n} pixels with weights adding to {sum} at step {s}");
        let minor_inside = n == 2;
        check!(!minor_inside || (sum - 1.0).abs() < 1e-5, "{what}: weights add to {sum} at step {s}");
    }
    ch.observe(seen.len() as u64);
    Ok(())
}

/// The blend of each pixel gets the same weight whatever the pixel type, and is stored bit for bit.
fn typed<Q>(ch: &mut Ch) -> R
where
    Q: Pixel,
    Q::Subpixel: Val,
{
    let (w, h) = ch.pick(&[(6u32, 5u32), (1, 4), (9, 2)]);
    let pts = [(0, 0), (5, 3), (-2, 1), (3, 7), (4, 4), (8, -1), (2, 0)];
    let (a, b) = (ch.pick(&pts), ch.pick(&pts));
    ch.log(|| format!("{} x{} {a:?} to {b:?} on {w}x{h}", Q::Subpixel::NAME, Q::CHANNEL_COUNT));
    ch.ops(4);
    let img: Img<Q> = timg(w, h, 2);
    let color: Q = tpix(77);
    let weights = RefCell::new(BTreeMap::new());
    let numbered: Image<Rgb<u16>> = Image::from_fn(w, h, |x, y| Rgb([x as u16, y as u16, 0]));
    draw_antialiased_line_segment(&numbered, a, b, Rgb([9u16; 3]), |_, o, wt| {
        weights.borrow_mut().insert((o[0] as u32, o[1] as u32), wt);
        o
    });
    let vals = Q::Subpixel::vals();
    let blend = |c: Q, o: Q, wt: f32| {
        let v: Vec<Q::Subpixel> = c.channels().iter().zip(o.channels()).map(|(&c, &o)| if wt > 0.6 { c } else if wt > 0.3 { vals[(wt * 20.0) as usize % vals.len()] } else { o }).collect();
        *Q::from_slice(&v)
    };
    let e = Img::<Q>::from_fn(w, h, |x, y| weights.borrow().get(&(x, y)).map_or(*img.get_pixel(x, y), |&wt| blend(color, *img.get_pixel(x, y), wt)));
    let mut m = img.clone();
    draw_antialiased_line_segment_mut(&mut m, a, b, color, blend);
    let mut outer: Img<Q> = timg(w + 3, h + 3, 8);
    imageops::replace(&mut outer, &img, 2, 1);
    let mut ewin = outer.clone();
    imageops::replace(&mut ewin, &e, 2, 1);
    draw_antialiased_line_segment_mut(&mut *outer.sub_image(2, 1, w, h), a, b, color, blend);
    for (n, g, e) in [("the in-place form", m, &e), ("the returning form", draw_antialiased_line_segment(&img, a, b, color, blend), &e), ("a window of an image", outer, &ewin)] {
        if let Some(d) = tdiff(&g, e) {
            fail!("{n}: {d}");
        }
    }
    // the pixels of a line, by value and by place
    let inside = |p: P| p.0 >= 0 && p.1 >= 0 && p.0 < w as i32 && p.1 < h as i32;
    if inside(a) && inside(b) {
        let v = check_line(a, b)?;
        let mut m = img.clone();
        let got: Vec<Vec<u64>> = BresenhamLinePixelIter::new(&img, f(a), f(b)).map(|p| pbits(p)).collect();
        let want: Vec<Vec<u64>> = v.iter().map(|p| pbits(img.get_pixel(p.0 as u32, p.1 as u32))).collect();
        check!(got == want, "BresenhamLinePixelIter visits {got:?}, expected {want:?}");
        BresenhamLinePixelIterMut::new(&mut m, f(a), f(b)).for_each(|p| *p = color);
        let e = Img::<Q>::from_fn(w, h, |x, y| if v.contains(&(x as i32, y as i32)) { color } else { *img.get_pixel(x, y) });
        if let Some(d) = tdiff(&m, &e) {
            fail!("BresenhamLinePixelIterMut: {d}");
        }
    }
    Ok(())
}

fn main() {
    run("C26", |r| {
        r.section("bresenham", "all integer end point pairs of a grid: start 4 places incl. negative, differences -90..90 squared (thorough -200..200)", |ch| {
            let n = if ch.thorough { 200 } else { 90 };
            let s = ch.pick(&[(0, 0), (-3, 5), (-1000, -17), (70000, 12345)]);
            let dx = ch.int(-n, n) as i32;
            for dy in -n as i32..=n as i32 {
                ch.op();
                let v = check_line(s, (s.0 + dx, s.1 + dy))?;
                ch.observe(v.len() as u64);
            }
            Ok(())
        });
        r.section("bresenham-long", "long lines: differences around powers of two up to 2^20", |ch| {
            let ds = [0, 1, -1, 2, 3, 255, -256, 1000, 4095, 65535, -65536, 65537, 1_000_000, (1 << 20) - 1];
            let (dx, dy) = (ch.pick(&ds), ch.pick(&ds));
            ch.op();
            let s = ch.pick(&[(0, 0), (-7, 9)]);
            check_line(s, (s.0 + dx, s.1 + dy))?;
            Ok(())
        });
        r.section("fractional", "end points from a quarter grid -1..3: connected, monotone, from one truncated end point's major coordinate to the other's", |ch| {
            let q = |ch: &mut Ch| ch.int(-4, 12) as f32 / 4.0;
            let a = (q(ch), q(ch));
            let bx = q(ch);
            for i in -4..=12 {
                let b = (bx, i as f32 / 4.0);
                ch.op();
                let v: Vec<P> = BresenhamLineIter::new(a, b).take(100).collect();
                let steep = (b.1 - a.1).abs() > (b.0 - a.0).abs();
                let maj = |p: (f32, f32)| if steep { p.1 as i32 } else { p.0 as i32 };
                let n = (maj(a) - maj(b)).abs() + 1;
                check!(v.len() as i32 == n, "line {a:?} to {b:?}: {} pixels, expected {n}", v.len());
                for w in v.windows(2) {
                    let d = (w[0].0 - w[1].0).abs().max((w[0].1 - w[1].1).abs());
                    check!(d == 1, "line {a:?} to {b:?} jumps: {v:?}");
                }
                let e = (v[0], v[v.len() - 1]);
                let tr = |p: (f32, f32)| (p.0 as i32, p.1 as i32);
                check!(e.0 == tr(a) || e.0 == tr(b), "line {a:?} to {b:?} starts at {:?}", e.0);
                let (dx, dy) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
                let m = dx.abs().max(dy.abs());
                for p in &v {
                    let c = ((p.0 as f64 - a.0 as f64) * dy - (p.1 as f64 - a.1 as f64) * dx).abs();
                    check!(m == 0.0 || c / m <= 2.5, "line {a:?} to {b:?}: {p:?} is {} off", c / m);
                }
                ch.observe(v.len() as u64);
            }
            Ok(())
        });
        r.section("segments", "all end point pairs -2..7 x -2..7 on 5x4, 1x1, 0x3, 3x0, 6x2", |ch| {
            let (w, h) = ch.pick(&[(5u32, 4u32), (1, 1), (0, 3), (3, 0), (6, 2)]);
            let a = (ch.int(-2, 7) as i32, ch.int(-2, 7) as i32);
            let bx = ch.int(-2, 7) as i32;
            for by in -2..=7 {
                segment(ch, w, h, a, (bx, by))?;
            }
            Ok(())
        });
        r.section("segments-large", "segments and antialiased segments within and across canvases 300x200, 1030x9, 66000x3 and 3x66000", |ch| {
            let (w, h) = ch.pick(&[(300u32, 200u32), (1030, 9), (9, 1030), (66000, 3), (3, 66000)]);
            let p = |ch: &mut Ch| {
                let x = ch.pick(&[-7, 0, w as i32 / 2, w as i32 - 1, w as i32 + 40]);
                (x, ch.pick(&[-3, 1, h as i32 / 2, h as i32 - 1, h as i32 + 5]))
            };
            let (a, b) = (p(ch), p(ch));
            segment(ch, w, h, a, b)?;
            if w.max(h) < 2000 {
                antialiased(ch, w, h, a, b)?;
            }
            Ok(())
        });
        r.section("segments-far", "segments on 9x7 and 300x5 with one or both ends 100 to 1000000 pixels away in every direction", |ch| {
            let (w, h) = ch.pick(&[(9u32, 7u32), (300, 5)]);
            let far = [100i32, 700, 5000, 40_000, 70_000, 1_000_000];
            let d = ch.pick(&far);
            let dir: (i32, i32) = ch.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (2, -1), (-3, 1), (-1, 7)]);
                    let m: i32 = dir.0 + dir.1;
            let through = (w as i32 / 2, h as i32 / 2);
            let n = d / if m.abs() > 1 { 4 } else { 1 };
            let a = (through.0 + dir.0 * n / 7, through.1 + dir.1 * n / 7);
            let k = ch.choose(3) as i32;
            // back to the middle, or through it and as far (or half as far) on the other side
            let b = (through.0 - dir.0 * n / 14 * k, through.1 - dir.1 * n / 14 * k + ch.int(0, 2) as i32);
            segment(ch, w, h, a, b)?;
            segment(ch, w, h, b, a)
        });
        r.section("pixel-iterators", "all end point pairs -2..w+1 x -2..h+1 on all image shapes 1..5 x 1..5, 9x2; end points off the image are moved to its nearest pixel", |ch| {
            let (w, h) = if ch.flag() { (9, 2) } else { (ch.u(1, 5), ch.u(1, 5)) };
            let p = |ch: &mut Ch, n: u32| ch.int(-2, n as i64 + 1) as i32;
            let a = (p(ch, w), p(ch, h));
            for bx in -2..w as i32 + 2 {
                for by in -2..h as i32 + 2 {
                    pixel_iters(ch, w, h, a, (bx, by))?;
                }
            }
            let e: GrayImage = GrayImage::new(ch.pick(&[0, 3]), 0);
            check!(catching(|| BresenhamLinePixelIter::new(&e, (0.0, 0.0), (1.0, 1.0)).count()).is_err(), "empty image");
            Ok(())
        });
        r.section("antialiased", "all end point pairs -6..10 x -6..10 (step 1 or 2) on 8x7, 1x1, 3x9 and empty images", |ch| {
            let (w, h) = ch.pick(&[(8u32, 7u32), (1, 1), (3, 9), (0, 4), (4, 0)]);
            let a = (ch.int(-6, 10) as i32, ch.int(-6, 10) as i32);
            let bx = ch.int(-6, 10) as i32;
            for by in -6..=10 {
                antialiased(ch, w, h, a, (bx, by))?;
            }
            Ok(())
        });
        r.section("antialiased-long", "slopes over 60x45 and beyond: differences from a list up to 300", |ch| {
            let ds = [0, 1, -1, 2, 7, -13, 30, -44, 59, 100, -150, 299];
            let (dx, dy) = (ch.pick(&ds), ch.pick(&ds));
            let s = ch.pick(&[(0, 0), (-20, -30), (30, 20), (59, 44), (-100, 50)]);
            antialiased(ch, 60, 45, s, (s.0 + dx, s.1 + dy))
        });
        r.section("types", "40 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed, unsigned and float) x 49 pairs of end points x 3 canvases: blends and pixel iterators, also on windows of images", |ch| with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch)));
        r.section("antialiased-ladder", "antialiased lines over 40x30 with every difference -130..=130 in x (y) and seven in the other direction", |ch| {
            let d = ch.int(-130, 130) as i32;
            let e = ch.pick(&[0, 1, -2, 9, -29, 60, -130]);
            let s = ch.pick(&[(20, 15), (0, 0), (-7, 31)]);
            let b = if ch.flag() { (s.0 + d, s.1 + e) } else { (s.0 + e, s.1 + d) };
            antialiased(ch, 40, 30, s, b)
        });
    });
}
