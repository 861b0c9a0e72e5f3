//! C29: text.
use ab_glyph::{point, v2, Font, FontRef, GlyphId, Outline, OutlineCurve, PxScale, Rect as GRect, ScaleFont};
use image::*;
use imageproc::drawing::{draw_text, draw_text_mut, text_size, Blend};
use mc::*;

/// A font of rectangles (and one triangle) with known areas. Em height 16: ascent 12, descent -4.
struct Boxes;
/// (advance, optional box left, bottom, right, top); y points up from the base line
fn glyph(id: u16) -> (f32, Option<[f32; 4]>) {
    match id {
        1 => (8.0, Some([1.0, 0.0, 7.0, 10.0])),    // a: inside its cell
        2 => (6.0, Some([-2.0, -4.0, 9.0, 12.0])),  // b: overhangs on both sides
        3 => (5.0, None),                           // space
        4 => (0.0, Some([0.0, 2.0, 4.0, 5.0])),     // c: no advance
        5 => (7.0, Some([0.5, 0.5, 6.25, 9.75])),   // d: fractional edges
        6 => (9.0, Some([2.0, -7.0, 5.0, 15.0])),   // e: above the ascent and below the descent
        7 => (8.0, Some([0.0, 0.0, 8.0, 8.0])),     // t: triangle within that box
        _ => (4.0, Some([1.0, 1.0, 3.0, 3.0])),     // anything else
    }
}
impl Font for Boxes {
    fn units_per_em(&self) -> Option<f32> {
        Some(16.0)
    }
    fn ascent_unscaled(&self) -> f32 {
        12.0
    }
    fn descent_unscaled(&self) -> f32 {
        -4.0
    }
    fn line_gap_unscaled(&self) -> f32 {
        2.0
    }
    fn glyph_id(&self, c: char) -> GlyphId {
        GlyphId(match c {
            'a' => 1,
            'b' => 2,
            ' ' => 3,
            'c' => 4,
            'd' => 5,
            'e' => 6,
            't' => 7,
            _ => 0,
        })
    }
    fn h_advance_unscaled(&self, id: GlyphId) -> f32 {
        glyph(id.0).0
    }
    fn h_side_bearing_unscaled(&self, id: GlyphId) -> f32 {
        glyph(id.0).1.map_or(0.0, |b| b[0])
    }
    fn v_advance_unscaled(&self, _: GlyphId) -> f32 {
        16.0
    }
    fn v_side_bearing_unscaled(&self, _: GlyphId) -> f32 {
        0.0
    }
    fn kern_unscaled(&self, _: GlyphId, _: GlyphId) -> f32 {
        0.0
    }
    fn outline(&self, id: GlyphId) -> Option<Outline> {
        let b = glyph(id.0).1?;
        let (l, bo, r, t) = (b[0], b[1], b[2], b[3]);
        let p = if id.0 == 7 {
            vec![point(l, bo), point(r, bo), point(l, t)]
        } else {
            vec![point(l, bo), point(r, bo), point(r, t), point(l, t)]
        };
        let n = p.len();
        Some(Outline {
            bounds: GRect { min: point(l, t), max: point(r, bo) },
            curves: (0..n).map(|i| OutlineCurve::Line(p[i], p[(i + 1) % n])).collect(),
        })
    }
    fn glyph_count(&self) -> usize {
        8
    }
    fn codepoint_ids(&self) -> ab_glyph::CodepointIdIter<'_> {
        unimplemented!()
    }
    fn glyph_raster_image2(&self, _: GlyphId, _: u16) -> Option<v2::GlyphImage<'_>> {
        None
    }
}

/// Area of the part of the glyph in pixel (x, y), origin of the text at (0, 0).
fn coverage(id: u16, pen: f64, s: PxScale, x: i32, y: i32) -> f64 {
    let Some(b) = glyph(id).1 else { return 0.0 };
    let (hx, vy) = (s.x as f64 / 16.0, s.y as f64 / 16.0);
    let base = 12.0 * vy;
    let l = pen + b[0] as f64 * hx;
    let r = pen + b[2] as f64 * hx;
    let t = base - b[3] as f64 * vy;
    let bo = base - b[1] as f64 * vy;
    let (x, y) = (x as f64, y as f64);
    let ov = |a0: f64, a1: f64, b0: f64, b1: f64| (a1.min(b1) - a0.max(b0)).max(0.0);
    if id == 7 {
        // lower left triangle: numeric integration by thin rows
        let n = 400;
        let mut sum = 0.0;
        for i in 0..n {
            let yy = y + (i as f64 + 0.5) / n as f64;
            if yy > t && yy < bo {
                let right = l + (r - l) * (yy - t) / (bo - t);
                sum += ov(l, right, x, x + 1.0) / n as f64;
            }
        }
        return sum;
    }
    ov(l, r, x, x + 1.0) * ov(t, bo, y, y + 1.0)
}

fn advance(text: &str, s: PxScale) -> f64 {
    text.chars().map(|c| glyph(Boxes.glyph_id(c).0).0 as f64 * s.x as f64 / 16.0).sum()
}

const ALPHA: [char; 8] = ['a', 'b', ' ', 'c', 'd', 'e', 't', '?'];

fn string(ch: &mut Ch, alpha: &[char], max: usize) -> String {
    let n = ch.choose(max + 1);
    (0..n).map(|_| ch.pick(alpha)).collect()
}

/// Expected value range of each pixel of a canvas of background `bg`, text at (x, y).
fn expect(text: &str, s: PxScale, dx: i32, dy: i32, bg: f64, fg: f64) -> (f64, f64, bool) {
    let (mut v, mut tol) = (bg, 0.0);
    let mut touched = false;
    let mut pen = 0.0;
    for c in text.chars() {
        let id = Boxes.glyph_id(c).0;
        let k = coverage(id, pen, s, dx, dy);
        if k > 1e-9 {
            touched = true;
        }
        v = v * (1.0 - k) + fg * k;
        // rounding down, and coverage error of the rasteriser
        tol = tol * (1.0 - k) + 1.05 + 0.004 * (fg - bg).abs();
        if glyph(id).1.is_none() {
            tol -= 1.05;
        }
        pen += glyph(id).0 as f64 * s.x as f64 / 16.0;
    }
    (v, tol, touched)
}

fn text_case(ch: &mut Ch, text: &str, s: PxScale, w: u32, h: u32, x: i32, y: i32, bg: u8, fg: u8) -> R {
    ch.ops(2);
    let canvas = GrayImage::from_pixel(w, h, Luma([bg]));
    let img = draw_text(&canvas, Luma([fg]), x, y, s, &Boxes, text);
    check!(img.dimensions() == (w, h), "dimensions");
    check!(canvas.iter().all(|&p| p == bg), "the input changed");
    let mut m = canvas.clone();
    draw_text_mut(&mut m, Luma([fg]), x, y, s, &Boxes, text);
    check!(m == img, "draw_text and draw_text_mut differ");
    let mut k = 0u64;
    for py in 0..h as i32 {
        for px in 0..w as i32 {
            let got = img.get_pixel(px as u32, py as u32)[0];
            let (v, tol, touched) = expect(text, s, px - x, py - y, bg as f64, fg as f64);
            k += (got != bg) as u64;
            check!(
                (got as f64 - v).abs() <= tol,
                "{text:?} scale {s:?} at ({x},{y}) on {w}x{h}: pixel ({px},{py}) is {got} instead of {v:.2}"
            );
            let (lo, hi) = (bg.min(fg) as i32 - 1, bg.max(fg) as i32);
            check!(
                (lo..=hi).contains(&(got as i32)),
                "{text:?}: pixel ({px},{py}) is {got}, not between {bg} and {fg}"
            );
            // rounding may move a pixel with coverage of nearly nothing
            check!(
                touched || (got as i32 - bg as i32).abs() <= 1,
                "{text:?} scale {s:?} at ({x},{y}): pixel ({px},{py}) outside the glyphs changed to {got}"
            );
        }
    }
    ch.observe(k << 20 | text.len() as u64);
    Ok(())
}

/// Text on one pixel type: every channel, alpha included, moves towards the colour by the coverage.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel,
    P::Subpixel: Val + Into<f32> + imageproc::definitions::Clamp<f32>,
{
    let text = ch.pick(&["a", "ad", "bte", "t t"]);
    let s = ch.pick(&[PxScale::from(16.0), PxScale { x: 9.5, y: 13.0 }]);
    let (w, h) = ch.pick(&[(40u32, 20u32), (7, 9)]);
    let (x, y) = ch.pick(&[(2, 1), (-3, -2), (30, 10)]);
    let scale = P::Subpixel::DEFAULT_MAX_VALUE.f() / 255.0;
    let value = |v: u32| <P::Subpixel as num::NumCast>::from(v as f64 * scale).unwrap();
    let px = |k: u32| *P::from_slice(&(0..P::CHANNEL_COUNT as u32).map(|c| value((k * 77 + c * 91) % 256)).collect::<Vec<_>>());
    let k = ch.u(0, 3);
    let (bg, color): (P, P) = (px(k), px(k + 5));
    ch.log(|| format!("{} x{} {text:?} {s:?} at ({x},{y}) on {w}x{h}, {:?} on {:?}", P::Subpixel::NAME, P::CHANNEL_COUNT, color.channels(), bg.channels()));
    ch.ops(3);
    let img: Img<P> = ImageBuffer::from_pixel(w, h, bg);
    let got = draw_text(&img, color, x, y, s, &Boxes, text);
    let mut m = img.clone();
    draw_text_mut(&mut m, color, x, y, s, &Boxes, text);
    let mut outer: Img<P> = timg(w + 3, h + 3, 8);
    imageops::replace(&mut outer, &img, 2, 1);
    let mut ewin = outer.clone();
    imageops::replace(&mut ewin, &got, 2, 1);
    draw_text_mut(&mut *outer.sub_image(2, 1, w, h), color, x, y, s, &Boxes, text);
    for (n, g, e) in [("the in-place form", m, &got), ("a window of an image", outer, &ewin)] {
        if let Some(d) = tdiff(&g, e) {
            fail!("{n} differs from the returning form: {d}");
        }
    }
    let int = P::Subpixel::NAME != "f32";
    for (px, py, p) in got.enumerate_pixels() {
        for c in 0..P::CHANNEL_COUNT as usize {
            let (b, f, g) = (bg.channels()[c].f(), color.channels()[c].f(), p.channels()[c].f());
            let (v, tol, touched) = expect(text, s, px as i32 - x, py as i32 - y, b, f);
            let (tol, slack) = if int { (tol, 1.0) } else { (0.013 * (f - b).abs() + 1e-3, 1e-3) };
            check!((g - v).abs() <= tol, "pixel ({px},{py}) channel {c} is {g} instead of {v:.4}");
            check!(g >= b.min(f) - slack - f.abs() * 1e-6 && g <= b.max(f) * (1.0 + 1e-6), "pixel ({px},{py}) channel {c} is {g}, not between {b} and {f}");
            check!(touched || (g - b).abs() <= slack.max(0.004 * (f - b).abs()), "pixel ({px},{py}) channel {c} outside the glyphs changed from {b} to {g}");
        }
    }
    Ok(())
}

fn main() {
    run("C29", |r| {
        r.section("measured-size", "all strings of up to 3 (thorough 4) of 8 glyphs x 12 scales: width from the advances, height from the font", |ch| {
            let t = ch.thorough as usize;
            let text = string(ch, &ALPHA, 3 + t);
            let s = scale(ch);
            ch.op();
            let got = text_size(s, &Boxes, &text);
            if text.is_empty() {
                check!(got == (0, 0), "size of the empty text {got:?}");
                return Ok(());
            }
            let w = advance(&text, s);
            let near = (w - w.round()).abs() < 1e-3;
            let wants = if near { vec![w.round() as u32, w.round() as u32 + 1, w.round() as u32 + 2] } else { vec![1 + w.ceil() as u32] };
            check!(wants.contains(&got.0), "{text:?} at {s:?}: width {} instead of 1 + {w}", got.0);
            check!(got.1 == s.y.ceil() as u32, "{text:?} at {s:?}: height {}", got.1);
            Ok(())
        });
        r.section("pixels", "all strings of up to 2 glyphs x 8 scales x 2 positions on a 48x40 canvas x 2 colour pairs: every pixel by glyph coverage", |ch| {
            let text = string(ch, &ALPHA, 2);
            let s = scale(ch);
            let (x, y) = ch.pick(&[(8, 8), (11, 5)]);
            let (bg, fg) = ch.pick(&[(0u8, 255u8), (200, 17)]);
            text_case(ch, &text, s, 48, 40, x, y, bg, fg)
        });
        r.section("pixels-three", "all strings of 3 of {a, b, space, e} at scale 16 and 9.5", |ch| {
            let text: String = (0..3).map(|_| ch.pick(&['a', 'b', ' ', 'e'])).collect();
            let s = ch.pick(&[PxScale::from(16.0), PxScale::from(9.5)]);
            text_case(ch, &text, s, 40, 28, 6, 4, 10, 250)
        });
        r.section("clipping", "4 strings x 2 scales x canvases 0..9 x 0..9 and 20x20 x positions straddling every edge: equals the window of a large canvas", |ch| {
            let text = ch.pick(&["a", "bd", "e t", "cb"]);
            let s = ch.pick(&[PxScale::from(16.0), PxScale { x: 9.0, y: 12.5 }]);
            let big = 80i32;
            let (w, h) = ch.pick(&[(0u32, 0u32), (0, 5), (5, 0), (1, 1), (9, 1), (1, 9), (4, 6), (9, 9), (20, 20)]);
            let st = if ch.thorough { 1 } else { 3 };
            let n = 40 / st;
            let x = (ch.int(-n, n) * st) as i32;
            let y = (ch.int(-n, n) * st) as i32;
            ch.ops(2);
            let pal = |x: i32, y: i32| Rgb([(x * 7 + y * 3) as u8, 100, (x + y * 5) as u8]);
            let small = RgbImage::from_fn(w, h, |a, b| pal(a as i32, b as i32));
            let large = RgbImage::from_fn(2 * big as u32, 2 * big as u32, |a, b| pal(a as i32 - big, b as i32 - big));
            let fg = Rgb([255, 0, 60]);
            let a = draw_text(&small, fg, x, y, s, &Boxes, text);
            let b = draw_text(&large, fg, x + big, y + big, s, &Boxes, text);
            for py in 0..h {
                for px in 0..w {
                    let (p, q) = (a.get_pixel(px, py), b.get_pixel(px + big as u32, py + big as u32));
                    check!(p == q, "{text:?} at ({x},{y}) on {w}x{h}: ({px},{py}) is {p:?}, on a larger canvas {q:?}");
                }
            }
            Ok(())
        });
        r.section("rigid", "5 strings x 4 scales x all offsets of a grid: the same pixels, moved", |ch| {
            let text = ch.pick(&["a", "bd", "e t", "dt", "?ab"]);
            let s = scale(ch);
            let (dx, dy) = (ch.int(-6, 6) as i32, ch.int(-6, 6) as i32);
            ch.ops(2);
            let c = GrayImage::new(90, 60);
            let a = draw_text(&c, Luma([255]), 10, 12, s, &Boxes, text);
            let b = draw_text(&c, Luma([255]), 10 + dx, 12 + dy, s, &Boxes, text);
            for y in 7..50i32 {
                for x in 7..80i32 {
                    let p = a.get_pixel(x as u32, y as u32);
                    let q = b.get_pixel((x + dx) as u32, (y + dy) as u32);
                    check!(p == q, "{text:?} at {s:?} moved by ({dx},{dy}): ({x},{y})");
                }
            }
            Ok(())
        });
        r.section("large-canvases", "5 strings x 2 scales x canvases 600x500, 30x3000, 3000x30, 70000x9, 9x70000 x a grid of positions near both ends and in the middle: equals the window of a large canvas", |ch| {
            let text = ch.pick(&["a", "bd", "e t", "cb", "abcdetab"]);
            let s = ch.pick(&[PxScale::from(16.0), PxScale { x: 29.0, y: 42.5 }]);
            let (w, h) = ch.pick(&[(600u32, 500u32), (30, 3000), (3000, 30), (70000, 9), (9, 70000)]);
            let at = |ch: &mut Ch, n: i32| {
                let v = [-25, -4, 3, 100, 250, 300, n / 2, 32760, 65530, n - 30, n - 3, n + 2];
                v[ch.choose(v.len())]
            };
            let (x, y) = (at(ch, w as i32), at(ch, h as i32));
            if x > w as i32 + 5 || y > h as i32 + 5 {
                return ch.reject();
            }
            ch.ops(2);
            let a = draw_text(&GrayImage::from_pixel(w, h, Luma([40])), Luma([230]), x, y, s, &Boxes, text);
            let b = draw_text(&GrayImage::from_pixel(500, 120, Luma([40])), Luma([230]), 30, 30, s, &Boxes, text);
            for (px, py, p) in a.enumerate_pixels() {
                let (bx, by) = (px as i32 - x + 30, py as i32 - y + 30);
                let q = if bx >= 0 && by >= 0 && bx < 500 && by < 120 { b.get_pixel(bx as u32, by as u32)[0] } else { 40 };
                check!(p[0] == q, "{text:?} at ({x},{y}) on {w}x{h}: ({px},{py}) is {}, expected {q}", p[0]);
            }
            ch.observe(a.iter().filter(|&&p| p != 40).count() as u64);
            Ok(())
        });
        r.section("long-texts", "texts of 20, 70 and 300 glyphs, sizes and pixels", |ch| {
            let n = ch.pick(&[20usize, 70, 300]);
            let step = ch.u(1, 5) as usize;
            let text: String = (0..n).map(|i| ALPHA[(i * step + i / 8) % 8]).collect();
            let s = ch.pick(&[PxScale::from(16.0), PxScale { x: 7.0, y: 18.0 }]);
            let w = advance(&text, s);
            let got = text_size(s, &Boxes, &text);
            check!((got.0 as f64 - 1.0 - w).abs() <= 1.0 + 1e-3 * n as f64, "width {} for advances of {w}", got.0);
            text_case(ch, &text, s, w.ceil() as u32 + 12, 22, 5, 3, 10, 250)
        });
        r.section("very-long-texts", "texts of 2k to 70k glyphs at integer advances (widths up to 900000), x 4 scales: the measured size, and windows of the text at both ends, the middle and around 32768, 65536 and 262144, against the glyphs of the window alone", |ch| {
            let n = ch.pick(&[2_000usize, 6_000, 20_000, 70_000]);
            let step = ch.u(1, 3) as usize;
            let hor = ch.pick(&[1u32, 2]);
            let s = PxScale { x: 16.0 * hor as f32, y: 16.0 };
            let glyphs: Vec<char> = (0..n).map(|i| ['a', 'b', ' ', 'e', 't', '?'][(i * step + i / 7) % 6]).collect();
            let text: String = glyphs.iter().collect();
            let mut pens = vec![0i32];
            for &c in &glyphs {
                pens.push(pens[pens.len() - 1] + glyph(Boxes.glyph_id(c).0).0 as i32 * hor as i32);
            }
            let got = text_size(s, &Boxes, &text);
            check!(got == (pens[n] as u32 + 1, 16), "size {got:?} of {n} glyphs with advances of {}", pens[n]);
            let at = ch.pick(&[0i32, pens[n] / 2, 32_768, 65_536, 262_144, pens[n] - 60]) - 20;
            if at >= pens[n] {
                return ch.reject();
            }
            ch.ops(3);
            // glyphs which can reach the window of 120 pixels
            let near: Vec<usize> = (0..n).filter(|&i| pens[i] > at - 40 && pens[i] < at + 160).collect();
            let part: String = near.iter().map(|&i| glyphs[i]).collect();
            let c = GrayImage::from_pixel(120, 24, Luma([40]));
            let a = draw_text(&c, Luma([230]), -at, 4, s, &Boxes, &text);
            let b = draw_text(&c, Luma([230]), pens[near[0]] - at, 4, s, &Boxes, &part);
            if let Some(d) = diff(&a, &b) {
                fail!("window at {at} of {n} glyphs, compared with its glyphs alone: {d}");
            }
            check!(a != c, "nothing drawn in the window at {at}");
            Ok(())
        });
        r.section("far-away", "positions at the limits of i32 x canvas shapes: nothing drawn, no panic", |ch| {
            let text = ch.pick(&["", "a", "be", "   ", "ccc"]);
            let v = [i32::MIN, i32::MIN + 1, -1_000_000, 1_000_000, i32::MAX - 1, i32::MAX];
            let x = ch.pick(&v);
            let y = if ch.flag() { ch.pick(&v) } else { 3 };
            let (x, y) = if ch.flag() { (x, y) } else { (y, x) };
            let (w, h) = ch.pick(&[(0u32, 0u32), (1, 1), (12, 12)]);
            let c = GrayImage::from_pixel(w, h, Luma([9]));
            ch.op();
            let s = ch.pick(&[PxScale::from(16.0), PxScale::from(200.0)]);
            let a = draw_text(&c, Luma([255]), x, y, s, &Boxes, text);
            check!(a == c, "{text:?} at ({x},{y}) painted");
            Ok(())
        });
        r.section("scales", "scales 0, 0.01, 0.5, 1, 2, 300 and mixed: no panic, same size twice, confined to the glyph boxes", |ch| {
            let v = [0.0f32, 0.01, 0.5, 1.0, 2.0, 40.0];
            let s = PxScale { x: ch.pick(&v), y: ch.pick(&v) };
            let text = ch.pick(&["a", "bd", "e t", "", " "]);
            let a = text_size(s, &Boxes, text);
            check!(a == text_size(s, &Boxes, text), "two measurements differ");
            text_case(ch, text, s, 60, 60, 10, 10, 0, 255)
        });
        r.section("canvases", "blending canvases and other pixel types: alpha colour blended by coverage", |ch| {
            let text = ch.pick(&["a", "d", "t"]);
            let s = ch.pick(&[PxScale::from(16.0), PxScale::from(11.0)]);
            ch.ops(3);
            // gray text on RGB, gray 16 bit and float canvases agree with the 8 bit one
            let base = draw_text(&GrayImage::new(24, 24), Luma([200]), 4, 3, s, &Boxes, text);
            let rgb = draw_text(&RgbImage::new(24, 24), Rgb([200, 0, 100]), 4, 3, s, &Boxes, text);
            let c16 = draw_text(&Img::<Luma<u16>>::new(24, 24), Luma([51200]), 4, 3, s, &Boxes, text);
            let cf = draw_text(&Img::<Luma<f32>>::new(24, 24), Luma([200.0]), 4, 3, s, &Boxes, text);
            for y in 0..24 {
                for x in 0..24 {
                    let (b, p, q, f) = (base.get_pixel(x, y)[0], rgb.get_pixel(x, y), c16.get_pixel(x, y)[0], cf.get_pixel(x, y)[0]);
                    check!(p[0] == b && p[1] == 0 && (p[2] as i32 * 2 - b as i32).abs() <= 2, "RGB at ({x},{y}): {p:?}, gray {b}");
                    check!((q / 256) as u8 == b, "16 bit at ({x},{y}): {q}, gray {b}");
                    check!(f as u8 == b, "float at ({x},{y}): {f}, gray {b}");
                }
            }
            let mut bl = Blend(RgbaImage::from_pixel(24, 24, Rgba([0, 0, 0, 255])));
            draw_text_mut(&mut bl, Rgba([200, 200, 200, 255]), 4, 3, s, &Boxes, text);
            for (p, q) in bl.0.pixels().zip(base.pixels()) {
                check!(p[3] == 255 && (p[0] as i32 - q[0] as i32).abs() <= 2, "blending canvas: {p:?} instead of {q:?}");
            }
            Ok(())
        });
        r.section("real-font", "DejaVuSans: all strings of up to 2 of 10 characters x 3 scales: confined to the measured box up to bearing, positions at every edge", |ch| {
            let alpha = ['A', 'j', 'W', 'i', '.', ' ', 'y', 'Ö', 'f', '\u{1F600}'];
            let text = string(ch, &alpha, 2);
            let s = ch.pick(&[PxScale::from(12.0), PxScale::from(20.0), PxScale { x: 25.0, y: 10.0 }]);
            let font = font();
            ch.ops(2);
            let (w, h) = text_size(s, &font, &text);
            check!(text.is_empty() == (w == 0 && h == 0), "size of {text:?}: {w}x{h}");
            let c = GrayImage::new(100, 80);
            let a = draw_text(&c, Luma([255]), 20, 20, s, &font, &text);
            // bearings of this font are below a fifth of the scale; kerning below a quarter
            let (bx, by) = ((s.x / 4.0).ceil() as i32 + 1, (s.y / 5.0).ceil() as i32 + 1);
            let mut inked = 0;
            for (x, y, p) in a.enumerate_pixels() {
                let (x, y) = (x as i32 - 20, y as i32 - 20);
                if p[0] > 0 {
                    inked += 1;
                    check!(
                        x >= -bx && y >= -by && x < w as i32 + bx && y < h as i32 + by,
                        "{text:?} at {s:?}: ink at ({x},{y}), measured {w}x{h}"
                    );
                }
            }
            check!((inked > 0) == text.chars().any(|c| c != ' '), "{text:?} drew {inked} pixels");
            // one character: every pixel by the coverage of its outline
            if text.chars().count() == 1 {
                let sf = font.as_scaled(s);
                let id = font.glyph_id(text.chars().next().unwrap());
                let mut want = GrayImage::new(100, 80);
                if let Some(g) = font.outline_glyph(id.with_scale_and_position(s, point(0.0, sf.ascent()))) {
                    let b = g.px_bounds();
                    g.draw(|gx, gy, v| {
                        let (px, py) = (20 + b.min.x as i32 + gx as i32, 20 + b.min.y as i32 + gy as i32);
                        want.put_pixel(px as u32, py as u32, Luma([(255.0 * v.clamp(0.0, 1.0)) as u8]));
                    });
                }
                for (p, q) in a.iter().zip(want.iter()) {
                    check!((*p as i32 - *q as i32).abs() <= 1, "{text:?} at {s:?}: {p} instead of {q}");
                }
            }
            // the same on a canvas cutting it anywhere
            let (cx, cy) = (ch.int(-3, 3) as i32 * 5, ch.int(-2, 2) as i32 * 5);
            let small = draw_text(&GrayImage::new(14, 12), Luma([255]), cx, cy, s, &font, &text);
            for (x, y, p) in small.enumerate_pixels() {
                let (bx, by) = (x as i32 - cx + 20, y as i32 - cy + 20);
                let q = if bx >= 0 && by >= 0 && bx < 100 && by < 80 { a.get_pixel(bx as u32, by as u32)[0] } else { 0 };
                check!(p[0] == q, "{text:?} at ({cx},{cy}): ({x},{y}) is {} instead of {q}", p[0]);
            }
            ch.observe(inked);
            Ok(())
        });
        r.section("types", "12 pixel types (grey, grey+alpha, RGB, RGBA of 8, 16 bit and float) x 4 strings x 2 scales x canvases x positions x colours with alpha: every channel by glyph coverage, also on windows of images", |ch| with_type!(ch, [u8, u16, f32], typed(ch)));
        r.section("scale-ladder", "every scale from 0.25 to 64 in steps of 0.25, alone and with another scale in the other direction, 3 texts: measured sizes and every pixel by glyph coverage", |ch| {
            let v = (ch.choose(256) + 1) as f32 * 0.25;
            let s = match ch.choose(3) {
                0 => PxScale { x: v, y: v },
                1 => PxScale { x: v, y: 13.5 },
                _ => PxScale { x: 17.25, y: v },
            };
            let text = ch.pick(&["a", "bd", "e t"]);
            text_case(ch, text, s, 150, 90, 5, 7, 20, 230)
        });
    });
}

fn scale(ch: &mut Ch) -> PxScale {
    ch.pick(&[
        PxScale::from(16.0),
        PxScale::from(8.0),
        PxScale::from(12.5),
        PxScale::from(20.0),
        PxScale { x: 24.0, y: 10.0 },
        PxScale { x: 7.0, y: 18.0 },
        PxScale::from(3.0),
        PxScale::from(1.0),
    ])
}

fn font() -> FontRef<'static> {
    use std::sync::OnceLock;
    static DATA: OnceLock<Vec<u8>> = OnceLock::new();
    let d = DATA.get_or_init(|| std::fs::read("/repo/examples/DejaVuSans.ttf").expect("the font of the examples"));
    FontRef::try_from_slice(d).expect("font")
}
