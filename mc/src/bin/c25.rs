//! C25: drawing is confined to its primitive and independent of the canvas window.
use image::*;
use imageproc::drawing::*;
use imageproc::point::Point;
use imageproc::rect::Rect;
use mc::*;

/// Width of the surroundings a canvas is compared against.
const M: i32 = 14;

#[derive(Clone, Debug)]
enum Prim {
    Line((f32, f32), (f32, f32)),
    HollowRect(i32, i32, u32, u32),
    FilledRect(i32, i32, u32, u32),
    HollowCircle((i32, i32), i32),
    FilledCircle((i32, i32), i32),
    HollowEllipse((i32, i32), i32, i32),
    FilledEllipse((i32, i32), i32, i32),
    Polygon(Vec<(i32, i32)>),
    HollowPolygon(Vec<(f32, f32)>),
    Bezier([(f32, f32); 4]),
    Cross(i32, i32),
}
use Prim::*;

fn pts(p: &[(i32, i32)]) -> Vec<Point<i32>> {
    p.iter().map(|p| Point::new(p.0, p.1)).collect()
}

fn draw<C: Canvas>(c: &mut C, p: &Prim, color: C::Pixel) {
    match p {
        Line(a, b) => draw_line_segment_mut(c, *a, *b, color),
        HollowRect(x, y, w, h) => draw_hollow_rect_mut(c, Rect::at(*x, *y).of_size(*w, *h), color),
        FilledRect(x, y, w, h) => draw_filled_rect_mut(c, Rect::at(*x, *y).of_size(*w, *h), color),
        HollowCircle(o, r) => draw_hollow_circle_mut(c, *o, *r, color),
        FilledCircle(o, r) => draw_filled_circle_mut(c, *o, *r, color),
        HollowEllipse(o, a, b) => draw_hollow_ellipse_mut(c, *o, *a, *b, color),
        FilledEllipse(o, a, b) => draw_filled_ellipse_mut(c, *o, *a, *b, color),
        Polygon(v) => draw_polygon_mut(c, &pts(v), color),
        HollowPolygon(v) => {
            let v: Vec<Point<f32>> = v.iter().map(|p| Point::new(p.0, p.1)).collect();
            draw_hollow_polygon_mut(c, &v, color)
        }
        Bezier(v) => draw_cubic_bezier_curve_mut(c, v[0], v[1], v[2], v[3], color),
        Cross(x, y) => draw_cross_mut(c, color, *x, *y),
    }
}

fn draw_new<I>(img: &I, p: &Prim, color: I::Pixel) -> Img<I::Pixel>
where
    I: GenericImage,
{
    match p {
        Line(a, b) => draw_line_segment(img, *a, *b, color),
        HollowRect(x, y, w, h) => draw_hollow_rect(img, Rect::at(*x, *y).of_size(*w, *h), color),
        FilledRect(x, y, w, h) => draw_filled_rect(img, Rect::at(*x, *y).of_size(*w, *h), color),
        HollowCircle(o, r) => draw_hollow_circle(img, *o, *r, color),
        FilledCircle(o, r) => draw_filled_circle(img, *o, *r, color),
        HollowEllipse(o, a, b) => draw_hollow_ellipse(img, *o, *a, *b, color),
        FilledEllipse(o, a, b) => draw_filled_ellipse(img, *o, *a, *b, color),
        Polygon(v) => draw_polygon(img, &pts(v), color),
        HollowPolygon(v) => {
            let v: Vec<Point<f32>> = v.iter().map(|p| Point::new(p.0, p.1)).collect();
            // takes its input by mutable reference
            let mut i = Img::<I::Pixel>::from_fn(img.width(), img.height(), |x, y| img.get_pixel(x, y));
            let before = i.clone();
            let r = draw_hollow_polygon(&mut i, &v, color);
            assert!(i.pixels().zip(before.pixels()).all(|(a, b)| same_pixel(a, b)), "draw_hollow_polygon modified its input");
            r
        }
        Bezier(v) => draw_cubic_bezier_curve(img, v[0], v[1], v[2], v[3], color),
        Cross(x, y) => draw_cross(img, color, *x, *y),
    }
}

fn shifted(p: &Prim, d: i32) -> Prim {
    moved(p, d, d)
}
fn moved(p: &Prim, dx: i32, dy: i32) -> Prim {
    let sf = |p: (f32, f32)| (p.0 + dx as f32, p.1 + dy as f32);
    let si = |p: (i32, i32)| (p.0 + dx, p.1 + dy);
    match p.clone() {
        Line(a, b) => Line(sf(a), sf(b)),
        HollowRect(x, y, w, h) => HollowRect(x + dx, y + dy, w, h),
        FilledRect(x, y, w, h) => FilledRect(x + dx, y + dy, w, h),
        HollowCircle(o, r) => HollowCircle(si(o), r),
        FilledCircle(o, r) => FilledCircle(si(o), r),
        HollowEllipse(o, a, b) => HollowEllipse(si(o), a, b),
        FilledEllipse(o, a, b) => FilledEllipse(si(o), a, b),
        Polygon(v) => Polygon(v.into_iter().map(si).collect()),
        HollowPolygon(v) => HollowPolygon(v.into_iter().map(sf).collect()),
        Bezier(v) => Bezier([sf(v[0]), sf(v[1]), sf(v[2]), sf(v[3])]),
        Cross(x, y) => Cross(x + dx, y + dy),
    }
}

/// A canvas which records what is drawn on it, and where.
struct Rec {
    w: u32,
    h: u32,
    hits: Vec<u32>,
    bad: Option<String>,
    color: Luma<u8>,
}
impl Rec {
    fn new(w: u32, h: u32, color: Luma<u8>) -> Rec {
        Rec { w, h, hits: vec![0; (w * h) as usize], bad: None, color }
    }
}
impl Canvas for Rec {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, _: u32, _: u32) -> Luma<u8> {
        Luma([0])
    }
    fn draw_pixel(&mut self, x: u32, y: u32, color: Luma<u8>) {
        if x >= self.w || y >= self.h {
            self.bad = Some(format!("draw_pixel({x}, {y}) on a canvas of {}x{}", self.w, self.h));
            return;
        }
        if color != self.color {
            self.bad = Some(format!("drew colour {color:?} instead of {:?}", self.color));
        }
        self.hits[(y * self.w + x) as usize] += 1;
    }
}

fn rec(p: &Prim, w: u32, h: u32, color: Luma<u8>) -> Result<Vec<u32>, Fail> {
    let mut r = Rec::new(w, h, color);
    draw(&mut r, p, color);
    if let Some(b) = r.bad {
        fail!("{p:?}: {b}");
    }
    Ok(r.hits)
}

fn integral(p: &Prim) -> bool {
    let i = |p: &(f32, f32)| p.0.fract() == 0.0 && p.1.fract() == 0.0;
    match p {
        Line(a, b) => i(a) && i(b),
        HollowPolygon(v) => v.iter().all(i),
        Bezier(_) => false,
        _ => true,
    }
}

fn bg(x: i32, y: i32) -> u8 {
    ((x * 37 + y * 91).rem_euclid(240) + 10) as u8
}

/// Whether an edge of a polygon crosses row y exactly half a pixel beside x: the rounding of such
/// a crossing may depend on the position of the polygon.
fn half_tie(p: &Prim, x: i32, y: i32) -> bool {
    let Polygon(v) = p else { return false };
    let (x, y) = (x as i64, y as i64);
    let v: Vec<(i64, i64)> = v.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    (0..v.len()).any(|i| {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        let d = b.1 - a.1;
        let n = 2 * ((y - a.1) * (b.0 - a.0) + (a.0 - x) * d);
        d != 0 && (y - a.1) * (y - b.1) <= 0 && n.abs() == d.abs()
    })
}

/// Everything about one primitive on one canvas.
fn confined(ch: &mut Ch, w: u32, h: u32, p: &Prim) -> R {
    ch.log(|| format!("canvas {w}x{h}, {p:?}"));
    ch.ops(5);
    let color = Luma([3u8]);
    let blank = GrayImage::from_fn(w, h, |x, y| Luma([bg(x as i32, y as i32)]));
    let mut got = blank.clone();
    draw(&mut got, p, color);
    check!(got.dimensions() == (w, h), "the canvas changed its dimensions");
    ch.observe_bytes(got.as_raw());
    // returning form
    let before = blank.clone();
    let out = draw_new(&blank, p, color);
    check!(before == blank, "the returning form modified its input");
    if let Some(d) = diff(&out, &got) {
        fail!("the returning form differs from the in-place form: {d}");
    }
    // recording canvas
    let hits = rec(p, w, h, color)?;
    for y in 0..h {
        for x in 0..w {
            let i = (y * w + x) as usize;
            let want = if hits[i] > 0 { color[0] } else { bg(x as i32, y as i32) };
            check!(
                got.as_raw()[i] == want,
                "pixel ({x},{y}) is {} but was drawn {} times through the canvas interface",
                got.as_raw()[i],
                hits[i]
            );
        }
    }
    // window onto a larger canvas: to the right and below in the same coordinates, and all round
    let m = M as u32;
    let right = rec(p, w + m, h + m, color)?;
    for y in 0..h {
        for x in 0..w {
            let (a, b) = (hits[(y * w + x) as usize] > 0, right[(y * (w + m) + x) as usize] > 0);
            check!(a == b, "pixel ({x},{y}) painted: {a}, but {b} when the canvas reaches further right and down");
        }
    }
    let lw = w + 2 * m;
    let large = rec(&shifted(p, M), lw, h + 2 * m, color)?;
    let lit = |x: i32, y: i32| large[((y + M) * lw as i32 + x + M) as usize] > 0;
    if integral(p) {
        for y in 0..h {
            for x in 0..w {
                let (a, b) = (hits[(y * w + x) as usize] > 0, lit(x as i32, y as i32));
                check!(
                    a == b || half_tie(p, x as i32, y as i32),
                    "pixel ({x},{y}) painted: {a}, but {b} on a canvas reaching further to all sides"
                );
            }
        }
    } else if matches!(p, Bezier(_)) {
        for y in 0..h as i32 {
            for x in 0..w as i32 {
                if hits[(y * w as i32 + x) as usize] > 0 {
                    let near = (-1..=1).any(|dx| (-1..=1).any(|dy| lit(x + dx, y + dy)));
                    check!(near, "pixel ({x},{y}) painted, nothing near it on a larger canvas");
                } else if (-2..=2).all(|dx| (-2..=2).all(|dy| lit(x + dx, y + dy))) {
                    fail!("pixel ({x},{y}) not painted, everything round it is on a larger canvas");
                }
            }
        }
    }
    if let Line(a, b) = p {
        // the pixels of a line are those of the line iterator
        let l: Vec<(i32, i32)> = BresenhamLineIter::new(*a, *b).collect();
        for y in 0..h {
            for x in 0..w {
                let (u, v) = (hits[(y * w + x) as usize], l.contains(&(x as i32, y as i32)) as u32);
                check!(u == v, "pixel ({x},{y}) painted {u} times, the line iterator yields it {v} times");
            }
        }
    }
    if let HollowPolygon(v) = p {
        let mut l = std::collections::HashSet::new();
        for i in 0..v.len() {
            let to = v[(i + 1) % v.len()];
            if i + 1 < v.len() || v[i] != to {
                l.extend(BresenhamLineIter::new(v[i], to));
            }
        }
        for y in 0..h {
            for x in 0..w {
                let (u, v) = (hits[(y * w + x) as usize] > 0, l.contains(&(x as i32, y as i32)));
                check!(u == v, "pixel ({x},{y}) painted: {u}, the line iterators of the edges yield it: {v}");
            }
        }
    }
    // a blending canvas
    let base = RgbaImage::from_fn(w, h, |x, y| {
        Rgba([bg(x as i32, y as i32), 200, bg(y as i32, x as i32), if (x + y) % 3 == 0 { 130 } else { 255 }])
    });
    let half = Rgba([250, 20, 90, 120]);
    let mut blend = Blend(base.clone());
    draw(&mut blend, p, half);
    check!(blend.0.dimensions() == (w, h), "the blending canvas changed its dimensions");
    for y in 0..h {
        for x in 0..w {
            let n = hits[(y * w + x) as usize];
            let once = matches!(p, FilledRect(..) | Line(..) | Cross(..));
            check!(!once || n <= 1, "pixel ({x},{y}) drawn {n} times");
            let mut want = *base.get_pixel(x, y);
            for _ in 0..n {
                want.blend(&half);
            }
            let g = *blend.0.get_pixel(x, y);
            check!(g == want, "blending pixel ({x},{y}): {g:?} instead of {want:?} (drawn {n} times)");
        }
    }
    Ok(())
}

fn coord(ch: &mut Ch, n: u32, full: bool) -> i32 {
    let n = n as i32;
    if full {
        return ch.int(-3, n as i64 + 2) as i32;
    }
    let mut v = vec![-2, -1, 0, 1, n / 2, n - 1, n, n + 2];
    v.sort();
    v.dedup();
    ch.pick(&v)
}

fn few(ch: &mut Ch, n: u32) -> i32 {
    let n = n as i32;
    let mut v = vec![-2, 0, n / 2, n - 1, n + 1];
    v.sort();
    v.dedup();
    ch.pick(&v)
}

fn canvas(ch: &mut Ch) -> (u32, u32) {
    if ch.thorough {
        (ch.u(0, 8), ch.u(0, 8))
    } else {
        (ch.u(0, 6), ch.u(0, 6))
    }
}

fn aa_blend(line: Luma<u8>, orig: Luma<u8>, w: f32) -> Luma<u8> {
    imageproc::pixelops::interpolate(line, orig, w)
}

#[derive(Clone, Debug)]
enum Aa {
    Line((i32, i32), (i32, i32)),
    Poly(Vec<(i32, i32)>),
}

fn antialiased(ch: &mut Ch, w: u32, h: u32, p: &Aa) -> R {
    ch.log(|| format!("canvas {w}x{h}, {p:?}"));
    ch.ops(3);
    let color = Luma([3u8]);
    let sh = |v: &(i32, i32), d: i32| (v.0 + d, v.1 + d);
    let go = |i: &mut GrayImage, d: i32| match p {
        Aa::Line(a, b) => draw_antialiased_line_segment_mut(i, sh(a, d), sh(b, d), color, aa_blend),
        Aa::Poly(v) => {
            let v: Vec<(i32, i32)> = v.iter().map(|p| sh(p, d)).collect();
            draw_antialiased_polygon_mut(i, &pts(&v), color, aa_blend)
        }
    };
    let blank = GrayImage::from_fn(w, h, |x, y| Luma([bg(x as i32, y as i32)]));
    let mut got = blank.clone();
    go(&mut got, 0);
    check!(got.dimensions() == (w, h), "the canvas changed its dimensions");
    ch.observe_bytes(got.as_raw());
    let before = blank.clone();
    let out = match p {
        Aa::Line(a, b) => draw_antialiased_line_segment(&blank, *a, *b, color, aa_blend),
        Aa::Poly(v) => draw_antialiased_polygon(&blank, &pts(v), color, aa_blend),
    };
    check!(before == blank, "the returning form modified its input");
    if let Some(d) = diff(&out, &got) {
        fail!("the returning form differs from the in-place form: {d}");
    }
    let m = M as u32;
    let mut large =
        GrayImage::from_fn(w + 2 * m, h + 2 * m, |x, y| Luma([bg(x as i32 - M, y as i32 - M)]));
    go(&mut large, M);
    for y in 0..h {
        for x in 0..w {
            let (a, b) = (got.get_pixel(x, y)[0], large.get_pixel(x + m, y + m)[0]);
            let tie = if let Aa::Poly(v) = p { half_tie(&Polygon(v.clone()), x as i32, y as i32) } else { false };
            check!(
                tie || (a as i32 - b as i32).abs() <= 2,
                "pixel ({x},{y}) is {a}, but {b} on a canvas reaching further to all sides"
            );
            let o = bg(x as i32, y as i32);
            check!(a + 1 >= color[0] && a <= o, "pixel ({x},{y}) is {a}, not between the colour 3 and the background {o}");
        }
    }
    Ok(())
}

fn same_pixel<P: Pixel>(a: &P, b: &P) -> bool {
    a.channels().iter().zip(b.channels()).all(|(a, b)| a == b)
}

fn some_prims() -> Vec<Prim> {
    vec![
        Line((-1.0, 0.0), (5.0, 3.0)),
        Line((0.0, 4.0), (4.0, 0.0)),
        Line((2.0, 2.0), (2.0, 2.0)),
        HollowRect(0, 0, 3, 3),
        HollowRect(-1, 1, 4, 9),
        FilledRect(1, 0, 2, 2),
        FilledRect(-3, -3, 20, 5),
        HollowCircle((2, 2), 2),
        HollowCircle((0, 0), 4),
        FilledCircle((3, 1), 1),
        FilledCircle((-1, 4), 3),
        HollowEllipse((2, 2), 1, 2),
        HollowEllipse((4, 0), 5, 3),
        FilledEllipse((1, 2), 1, 3),
        FilledEllipse((4, 4), 3, 1),
        Polygon(vec![(0, 0), (4, 1), (1, 4)]),
        Polygon(vec![(-2, 2), (7, 0), (6, 6), (2, 3)]),
        HollowPolygon(vec![(0.0, 0.0), (4.0, 1.0), (1.0, 4.0)]),
        Bezier([(0.0, 0.0), (4.0, 4.0), (8.0, 0.0), (-4.0, 3.0)]),
        Bezier([(-2.0, 3.0), (6.0, 3.0), (0.0, -2.0), (3.0, 7.0)]),
        Cross(0, 0),
        Cross(3, 2),
    ]
}

/// Every primitive on one pixel type: the pixels of the primitive get the colour bit for bit, on an image, on a
/// window of an image, in the returning form, and blended when asked for.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + std::fmt::Debug,
    P::Subpixel: Val,
{
    let (w, h) = ch.pick(&[(5, 5), (1, 6), (7, 3)]);
    let color: P = match ch.choose(6) {
        0 => *P::from_slice(&vec![P::Subpixel::vals()[0]; P::CHANNEL_COUNT as usize]),
        1 => *P::from_slice(&vec![P::Subpixel::vals()[1]; P::CHANNEL_COUNT as usize]),
        k => tpix(k as u32),
    };
    let all = some_prims();
    let p = &all[ch.choose(all.len())];
    ch.log(|| format!("{} x{} canvas {w}x{h}, colour {color:?}, {p:?}", P::Subpixel::NAME, P::CHANNEL_COUNT));
    ch.ops(5);
    let hits = rec(p, w, h, Luma([9]))?;
    let img: Img<P> = timg(w, h, 3);
    let want = Img::<P>::from_fn(w, h, |x, y| if hits[(x + y * w) as usize] > 0 { color } else { *img.get_pixel(x, y) });
    let mut m = img.clone();
    draw(&mut m, p, color);
    let mut outer: Img<P> = timg(w + 3, h + 3, 8);
    imageops::replace(&mut outer, &img, 2, 1);
    let mut ewin = outer.clone();
    imageops::replace(&mut ewin, &want, 2, 1);
    let ret_view = draw_new(&*outer.sub_image(2, 1, w, h), p, color);
    for (n, g, e) in [("the in-place form", m, &want), ("the returning form", draw_new(&img, p, color), &want), ("the returning form for a window", ret_view, &want)] {
        if let Some(d) = tdiff(&g, e) {
            fail!("{n}: {d}");
        }
    }
    draw(&mut *outer.sub_image(2, 1, w, h), p, color);
    if let Some(d) = tdiff(&outer, &ewin) {
        fail!("drawing on a window: {d}");
    }
    let mut eb = img.clone();
    let blended = catching(|| {
        for (i, n) in hits.iter().enumerate() {
            for _ in 0..*n {
                eb.get_pixel_mut(i as u32 % w, i as u32 / w).blend(&color);
            }
        }
    });
    let mut b = Blend(img.clone());
    let drawn = catching(|| draw(&mut b, p, color));
    check!(blended.is_ok() == drawn.is_ok(), "drawing on a blending canvas: {drawn:?}, Pixel::blend: {blended:?}");
    if drawn.is_ok() {
        if let Some(d) = tdiff(&b.0, &eb) {
            fail!("on a blending canvas: {d}");
        }
    }
    Ok(())
}

fn main() {
    run("C25", |r| {
        let b = "49 canvas shapes, all of 0..=6 squared (thorough: 0..=8) x two end points from coordinates -2, -1, 0, 1, n/2, n-1, n, n+2 per axis (thorough: a dense grid from -3 to n+2), integer and with fractional parts";
        r.section("lines", b, |ch| {
            let (w, h) = canvas(ch);
            let t = ch.thorough;
            let full = t && w * h <= 30 || w * h <= 9;
            let a = (coord(ch, w, full), coord(ch, h, full));
            let b = (coord(ch, w, full), coord(ch, h, full));
            let f = ch.pick(&[(0.0f32, 0.0f32), (0.5, 0.25)]);
            confined(ch, w, h, &Line((a.0 as f32 + f.0, a.1 as f32 + f.1), (b.0 as f32 - f.1, b.1 as f32 + f.0)))
        });
        r.section("rectangles", "the same canvases x left, top from that grid x sizes 1, 2, n, n+3, 9, filled and hollow", |ch| {
            let (w, h) = canvas(ch);
            let (x, y) = (coord(ch, w, ch.thorough), coord(ch, h, ch.thorough));
            let rw = ch.pick(&[1, 2, w.max(3), w + 3, 9]);
            let rh = ch.pick(&[1, 2, h.max(3), h + 3, 9]);
            let p = if ch.flag() { FilledRect(x, y, rw, rh) } else { HollowRect(x, y, rw, rh) };
            confined(ch, w, h, &p)
        });
        r.section("circles", "the same canvases x centres x radii 0..=9, filled and hollow", |ch| {
            let (w, h) = canvas(ch);
            let o = (coord(ch, w, ch.thorough), coord(ch, h, ch.thorough));
            let rad = ch.int(0, 9) as i32;
            let p = if ch.flag() { FilledCircle(o, rad) } else { HollowCircle(o, rad) };
            confined(ch, w, h, &p)
        });
        r.section("ellipses", "the same canvases x centres x radii from 0, 1, 2, 3, 5, 8 per axis, filled and hollow", |ch| {
            let (w, h) = canvas(ch);
            let o = (coord(ch, w, ch.thorough), coord(ch, h, ch.thorough));
            let a = ch.pick(&[0, 1, 2, 3, 5, 8]);
            let b = ch.pick(&[0, 1, 2, 3, 5, 8]);
            let p = if ch.flag() { FilledEllipse(o, a, b) } else { HollowEllipse(o, a, b) };
            confined(ch, w, h, &p)
        });
        r.section("crosses", "the same canvases x positions -3..=n+2", |ch| {
            let (w, h) = canvas(ch);
            let p = Cross(coord(ch, w, true), coord(ch, h, true));
            confined(ch, w, h, &p)
        });
        r.section("polygons", "canvases x 0..=4 vertices from coordinates -2, 0, n/2, n-1, n+1 (four vertices: -2, n/2, n+1), filled and hollow", |ch| {
            let (w, h) = if ch.thorough { (ch.u(0, 6), ch.u(0, 6)) } else { ch.pick(&[(0, 0), (1, 3), (3, 3), (5, 4), (4, 1), (2, 6)]) };
            let n = ch.choose(5);
            let v: Vec<(i32, i32)> = (0..n)
                .map(|_| {
                    if n < 4 {
                        let x = few(ch, w);
                        (x, few(ch, h))
                    } else {
                        let x = ch.pick(&[-2, w as i32 / 2, w as i32 + 1]);
                        (x, ch.pick(&[-2, h as i32 / 2, h as i32 + 1]))
                    }
                })
                .collect();
            let k = ch.choose(3);
            if k == 0 {
                confined(ch, w, h, &Polygon(v))
            } else if n == 1 {
                ch.reject()
            } else {
                let f = if k == 2 { 0.75 } else { 0.0 };
                if k == 2 && n == 4 && !ch.thorough {
                    return ch.reject();
                }
                confined(ch, w, h, &HollowPolygon(v.iter().map(|p| (p.0 as f32 + f, p.1 as f32 - f)).collect()))
            }
        });
        r.section("beziers", "canvases x start, end, two control points from -2, n/2, n+1 (thorough: -3, 0, n/2, n+1), integer and fractional", |ch| {
            let (w, h) = if ch.thorough { ch.pick(&[(0, 0), (1, 3), (4, 4), (6, 5)]) } else { ch.pick(&[(0, 0), (1, 3), (5, 4)]) };
            let f = ch.pick(&[0.0f32, 0.25, 0.5]);
            let mut v = [(0.0, 0.0); 4];
            for p in v.iter_mut() {
                let (x, y) = if ch.thorough {
                    (ch.pick(&[-3, 0, w as i32 / 2, w as i32 + 1]), ch.pick(&[-3, h as i32 / 2, h as i32 + 1]))
                } else {
                    (ch.pick(&[-2, w as i32 / 2, w as i32 + 1]), ch.pick(&[-2, h as i32 / 2, h as i32 + 1]))
                };
                *p = (x as f32 + f, y as f32 - f);
            }
            confined(ch, w, h, &Bezier(v))
        });
        r.section("antialiased", "the canvases x antialiased segments with the end points of section lines, and antialiased polygons of up to 3 vertices", |ch| {
            if ch.flag() {
                let (w, h) = canvas(ch);
                let full = ch.thorough && w * h <= 30 || w * h <= 6;
                let a = (coord(ch, w, full), coord(ch, h, full));
                let b = (coord(ch, w, full), coord(ch, h, full));
                antialiased(ch, w, h, &Aa::Line(a, b))
            } else {
                let (w, h) = ch.pick(&[(0, 0), (1, 3), (3, 3), (5, 4)]);
                let n = ch.choose(4);
                let v = (0..n)
                    .map(|_| {
                        let x = few(ch, w);
                        (x, few(ch, h))
                    })
                    .collect();
                antialiased(ch, w, h, &Aa::Poly(v))
            }
        });
        r.section("large canvases", "18 integer primitives x canvases 300x200, 1030x9, 9x1030, 70000x3, 3x70000 x positions near each border and in the middle: same pixels as on a canvas just large enough", |ch| {
            let (w, h) = ch.pick(&[(300u32, 200u32), (1030, 9), (9, 1030), (70000, 3), (3, 70000)]);
            let d = ch.pick(&[0, 5, 129, 190, 255, 290, 1020, 65530, 69995]);
            let all = vec![
                Line((-1.0, 0.0), (9.0, 3.0)),
                Line((0.0, 14.0), (6.0, 0.0)),
                Line((2.0, 2.0), (2.0, 2.0)),
                HollowRect(0, 0, 3, 3),
                HollowRect(-1, 1, 14, 9),
                FilledRect(1, 0, 2, 2),
                FilledRect(-3, -3, 17, 5),
                HollowCircle((2, 2), 2),
                HollowCircle((4, 4), 9),
                FilledCircle((3, 1), 1),
                FilledCircle((6, 4), 8),
                HollowEllipse((2, 2), 1, 2),
                HollowEllipse((6, 4), 9, 3),
                FilledEllipse((4, 4), 1, 3),
                FilledEllipse((4, 4), 8, 5),
                Polygon(vec![(0, 0), (4, 1), (1, 4)]),
                Polygon(vec![(-2, 2), (7, 0), (12, 15), (2, 9)]),
                HollowPolygon(vec![(0.0, 0.0), (12.0, 1.0), (5.0, 14.0)]),
                Cross(0, 0),
            ];
            let p = ch.pick(&all);
            ch.log(|| format!("canvas {w}x{h}, {p:?} shifted by {d}"));
            ch.ops(2);
            let c = Luma([3]);
            let small = rec(&shifted(&p, M), 2 * M as u32 + 6, 2 * M as u32 + 6, c)?;
            let mut img = GrayImage::from_pixel(w, h, Luma([200]));
            draw(&mut img, &shifted(&p, d), c);
            for (x, y, v) in img.enumerate_pixels() {
                let (sx, sy) = (x as i32 - d + M, y as i32 - d + M);
                let inside = sx >= 0 && sy >= 0 && sx < 2 * M + 6 && sy < 2 * M + 6;
                let want = inside && small[(sy * (2 * M + 6) + sx) as usize] > 0;
                let tie = half_tie(&shifted(&p, d), x as i32, y as i32);
                check!(tie || (v[0] == 3) == want, "pixel ({x},{y}) painted: {}, on a small canvas: {want}", v[0] == 3);
            }
            ch.observe_bytes(img.as_raw());
            Ok(())
        });
        r.section("two drawings", "every ordered pair of 22 primitives on 3 canvases: the second paints over the first", |ch| {
            let (w, h) = ch.pick(&[(5, 5), (1, 6), (4, 2)]);
            let all = some_prims();
            let a = ch.choose(all.len());
            let b = ch.choose(all.len());
            ch.log(|| format!("canvas {w}x{h}, {:?} then {:?}", all[a], all[b]));
            ch.ops(2);
            let (ca, cb) = (Luma([3u8]), Luma([7u8]));
            let mut img = GrayImage::from_fn(w, h, |x, y| Luma([bg(x as i32, y as i32)]));
            draw(&mut img, &all[a], ca);
            draw(&mut img, &all[b], cb);
            let (ma, mb) = (rec(&all[a], w, h, ca)?, rec(&all[b], w, h, cb)?);
            for i in 0..ma.len() {
                let (x, y) = (i as u32 % w, i as u32 / w);
                let want = if mb[i] > 0 {
                    7
                } else if ma[i] > 0 {
                    3
                } else {
                    bg(x as i32, y as i32)
                };
                check!(img.as_raw()[i] == want, "pixel ({x},{y}) is {}, expected {want}", img.as_raw()[i]);
            }
            ch.observe_bytes(img.as_raw());
            Ok(())
        });
        r.section("long reach", "canvas 9x7 x 10 primitives reaching 300, 5000 or 70000 pixels beyond one border, both ends or one end of them visible: same pixels as when everything is on one long canvas", |ch| {
            let d = ch.pick(&[300, 5000, 70_000]);
            let (kind, side, y, z) = (ch.choose(10), ch.choose(4), ch.int(-2, 8) as i32, ch.int(-2, 8) as i32);
            let (w, h) = (9u32, 7u32);
            // along the axis: u; across it: v
            let far = if side % 2 == 0 { -d } else { d };
            let vertical = side >= 2;
            let p = |u: i32, v: i32| if vertical { (v, u) } else { (u, v) };
            let f = |u: i32, v: i32| if vertical { (v as f32, u as f32) } else { (u as f32, v as f32) };
            let (left, span) = if far < 0 { (far, d + 4) } else { (4, d) };
            let rect = |filled: bool| {
                let (x, yy) = p(left, y);
                let t = (z + 3) as u32;
                let (rw, rh) = if vertical { (t, span as u32) } else { (span as u32, t) };
                if filled { FilledRect(x, yy, rw, rh) } else { HollowRect(x, yy, rw, rh) }
            };
            let prim = match kind {
                0 => Line(f(far, y), f(4, z)),
                1 => Line(f(4, z), f(far, y)),
                2 => Line(f(-d, y), f(d, z)),
                3 => rect(false),
                4 => rect(true),
                5 => Polygon(vec![p(far, y), p(4, z), p(6, 8 - z)]),
                6 => HollowPolygon(vec![f(far, y), f(4, z), f(6, 8 - z)]),
                7 => Polygon(vec![p(-d, y), p(d, z), p(d, 9), p(3, 2)]),
                8 | 9 if d > 5000 && (kind == 9 || !ch.thorough) => return ch.reject(),
                8 => {
                    let (a, b) = if vertical { (z + 3, d + y) } else { (d + y, z + 3) };
                    HollowEllipse(p(far, y), a, b)
                }
                _ => {
                    let (a, b) = if vertical { (z + 3, d + y) } else { (d + y, z + 3) };
                    FilledEllipse(p(far, y), a, b)
                }
            };
            ch.log(|| format!("canvas {w}x{h}, {prim:?}"));
            ch.ops(2);
            let color = Luma([3u8]);
            let hits = rec(&prim, w, h, color)?;
            let (dx, dy) = p(d, 0);
            let (lw, lh) = if vertical { (w, h + 2 * d as u32) } else { (w + 2 * d as u32, h) };
            let large = rec(&moved(&prim, dx, dy), lw, lh, color)?;
            for y in 0..h as i32 {
                for x in 0..w as i32 {
                    let a = hits[(y * w as i32 + x) as usize] > 0;
                    let b = large[((y + dy) as u32 * lw) as usize + (x + dx) as usize] > 0;
                    check!(a == b || half_tie(&prim, x, y), "pixel ({x},{y}) painted: {a}, but {b} on a canvas {d} pixels longer on both sides");
                }
            }
            ch.observe_bytes(&hits.iter().map(|&n| n as u8).collect::<Vec<_>>());
            Ok(())
        });
        r.section("far away", "9 canvases (empty to 5x3) x each primitive with coordinates from 0, 2, -300, 300, +-1000000 (2^24 for rectangles and circles of radius <= 2000): the canvas is respected, nothing panics", |ch| {
            let (w, h) = ch.pick(&[(5, 3), (0, 0), (0, 3), (3, 0), (1, 1)]);
            let c = |ch: &mut Ch, big: i32| ch.pick(&[2, 0, -300, 300, big, -big]);
            let big = ch.pick(&[100_000, if ch.thorough { 1_000_000 } else { 150_001 }]);
            let huge = 1 << 24;
            let p = match ch.choose(9) {
                0 => Line((c(ch, big) as f32, c(ch, 300) as f32), (c(ch, 2000) as f32, c(ch, big) as f32)),
                1 => HollowRect(c(ch, 5000), c(ch, 5000), ch.pick(&[1, 20_000]), ch.pick(&[1, 20_000])),
                2 => FilledRect(c(ch, i32::MAX - 20), c(ch, huge), ch.pick(&[1, 7, i32::MAX as u32]), ch.pick(&[1, huge as u32])),
                3 => {
                    let o = (c(ch, huge), c(ch, huge));
                    HollowCircle(o, ch.pick(&[0, 3, 299, 2000]))
                }
                4 => {
                    let o = (c(ch, 5000), c(ch, huge));
                    FilledCircle(o, ch.pick(&[0, 3, 299]))
                }
                5 => {
                    let o = (c(ch, 5000), c(ch, huge));
                    if ch.flag() {
                        HollowEllipse(o, ch.pick(&[0, 3, 299, 2000]), ch.pick(&[0, 2, 298, 1500]))
                    } else {
                        FilledEllipse(o, ch.pick(&[0, 3, 299]), ch.pick(&[0, 2, 298]))
                    }
                }
                6 => {
                    let v = vec![(c(ch, big), c(ch, big)), (c(ch, big), 1), (0, c(ch, big))];
                    if ch.flag() {
                        Polygon(v)
                    } else {
                        HollowPolygon(v.iter().map(|p| (p.0 as f32, p.1 as f32)).collect())
                    }
                }
                7 => {
                    let s = (c(ch, 3000) as f32, 1.0);
                    Bezier([s, (2.0, c(ch, 3000) as f32), (c(ch, 3000) as f32, 0.0), (1.0, c(ch, 3000) as f32)])
                }
                _ => Cross(c(ch, i32::MAX - 2), c(ch, i32::MAX - 2)),
            };
            ch.log(|| format!("canvas {w}x{h}, {p:?}"));
            ch.ops(2);
            let color = Luma([3u8]);
            let mut img = GrayImage::from_fn(w, h, |x, y| Luma([bg(x as i32, y as i32)]));
            draw(&mut img, &p, color);
            let hits = rec(&p, w, h, color)?;
            for (i, &n) in hits.iter().enumerate() {
                let (x, y) = (i as u32 % w, i as u32 / w);
                let want = if n > 0 { 3 } else { bg(x as i32, y as i32) };
                check!(img.as_raw()[i] == want, "pixel ({x},{y}) is {}, expected {want}", img.as_raw()[i]);
                if let FilledRect(l, t, rw, rh) = p {
                    let inside = x as i64 >= l as i64
                        && y as i64 >= t as i64
                        && (x as i64) < l as i64 + rw as i64
                        && (y as i64) < t as i64 + rh as i64;
                    check!((n > 0) == inside, "pixel ({x},{y}) of a rectangle painted: {}", n > 0);
                }
            }
            ch.observe_bytes(img.as_raw());
            Ok(())
        });
        r.section("far away antialiased", "5 canvases x antialiased segments and triangles with coordinates from 0, 2, +-300, +-1000000", |ch| {
            let (w, h) = ch.pick(&[(5, 3), (0, 0), (0, 3), (3, 0), (1, 1)]);
            let big = if ch.thorough { 1_000_000 } else { 100_000 };
            let c = |ch: &mut Ch| ch.pick(&[2, 0, -300, 300, big, -big]);
            let (a, b) = ((c(ch), c(ch)), (c(ch), c(ch)));
            let tri = ch.flag();
            ch.log(|| format!("canvas {w}x{h}, {a:?} {b:?} triangle {tri}"));
            ch.ops(1);
            let mut img = GrayImage::from_fn(w, h, |x, y| Luma([bg(x as i32, y as i32)]));
            if tri {
                draw_antialiased_polygon_mut(&mut img, &pts(&[a, b, (1, 0)]), Luma([3]), aa_blend);
            } else {
                draw_antialiased_line_segment_mut(&mut img, a, b, Luma([3]), aa_blend);
            }
            for (x, y, p) in img.enumerate_pixels() {
                let o = bg(x as i32, y as i32);
                check!(p[0] >= 2 && p[0] <= o, "pixel ({x},{y}) is {}, not between 3 and {o}", p[0]);
            }
            ch.observe_bytes(img.as_raw());
            Ok(())
        });
        r.section("types", "40 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed, unsigned and float) x 22 primitives x 6 colours x 3 canvases: images, windows of images, returning forms and blending canvases, bit for bit", |ch| with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch)));
    });
}
