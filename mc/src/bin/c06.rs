//! C06: integral images, rectangle sums, variances, running sums.
use image::*;
use imageproc::integral_image::*;
use mc::*;

macro_rules! layout {
    ($ch:ident, $P:ty, $Q32:ty, $w:ident, $h:ident, $pt:ident) => {{
        let img: Img<$P> = u8_pat($pt, $w, $h);
        let cc = <$P as Pixel>::CHANNEL_COUNT as usize;
        $ch.ops(4);
        let i32img: Img<$Q32> = integral_image::<$P, u32>(&img);
        let sq: Img<$Q32> = integral_squared_image::<$P, u32>(&img);
        let i64img = integral_image::<$P, u64>(&img);
        let if32 = integral_squared_image::<$P, f32>(&img);
        check!(i32img.dimensions() == ($w + 1, $h + 1) && sq.dimensions() == ($w + 1, $h + 1), "dimensions");
        check!(i64img.dimensions() == ($w + 1, $h + 1) && if32.dimensions() == ($w + 1, $h + 1), "dimensions");
        for y in 0..=$h {
            for x in 0..=$w {
                for c in 0..cc {
                    let (mut s, mut q) = (0u32, 0u32);
                    for b in 0..y {
                        for a in 0..x {
                            let v = img.get_pixel(a, b).channels()[c] as u32;
                            s += v;
                            q += v * v;
                        }
                    }
                    let g = i32img.get_pixel(x, y).channels()[c];
                    check!(g == s, "integral ({x},{y})[{c}] = {g}, expected {s}");
                    let g = sq.get_pixel(x, y).channels()[c];
                    check!(g == q, "squared integral ({x},{y})[{c}] = {g}, expected {q}");
                    check!(i64img.get_pixel(x, y).channels()[c] == s as u64, "u64 integral ({x},{y})[{c}]");
                    check!(if32.get_pixel(x, y).channels()[c] == q as f32, "f32 squared integral ({x},{y})[{c}]");
                }
            }
        }
        (img, i32img, sq)
    }};
}

macro_rules! rects {
    ($ch:ident, $img:ident, $ii:ident, $cc:expr) => {{
        let (w, h) = $img.dimensions();
        for l in 0..w {
            for t in 0..h {
                for r in l..w {
                    for b in t..h {
                        $ch.op();
                        let s = sum_image_pixels(&$ii, l, t, r, b);
                        for c in 0..$cc {
                            let mut e = 0;
                            for y in t..=b {
                                for x in l..=r {
                                    e += $img.get_pixel(x, y).channels()[c] as u32;
                                }
                            }
                            check!(s[c] == e, "sum over [{l},{r}]x[{t},{b}] channel {c} = {}, expected {e}", s[c]);
                        }
                    }
                }
            }
        }
    }};
}

fn running(ch: &mut Ch, img: &GrayImage) -> R {
    let (w, h) = img.dimensions();
    for pad in [0u32, 1, 2, 3, 7, 20] {
        let mut buf = vec![0xdead_beefu32; (w + 2 * pad) as usize];
        for y in 0..h {
            ch.op();
            row_running_sum(img, y, &mut buf, pad);
            let mut s = 0;
            for i in 0..(w + 2 * pad) as i64 {
                s += clamped(img, i - pad as i64, y as i64) as u32;
                check!(buf[i as usize] == s, "row_running_sum row {y} padding {pad} [{i}] = {}, expected {s}", buf[i as usize]);
            }
        }
        let mut buf = vec![0xdead_beefu32; (h + 2 * pad) as usize];
        for x in 0..w {
            ch.op();
            column_running_sum(img, x, &mut buf, pad);
            let mut s = 0;
            for i in 0..(h + 2 * pad) as i64 {
                s += clamped(img, x as i64, i - pad as i64) as u32;
                check!(buf[i as usize] == s, "column_running_sum column {x} padding {pad} [{i}] = {}, expected {s}", buf[i as usize]);
            }
        }
    }
    Ok(())
}

fn variances(ch: &mut Ch, img: &GrayImage) -> R {
    let (w, h) = img.dimensions();
    let ii = integral_image::<_, u32>(img);
    let sq = integral_squared_image::<_, u32>(img);
    for l in 0..w {
        for t in 0..h {
            for r in l..w {
                for b in t..h {
                    ch.op();
                    let v = variance(&ii, &sq, l, t, r, b);
                    let n = ((r - l + 1) * (b - t + 1)) as f64;
                    let mut m = 0.0;
                    for y in t..=b {
                        for x in l..=r {
                            m += img.get_pixel(x, y)[0] as f64;
                        }
                    }
                    m /= n;
                    let mut e = 0.0;
                    for y in t..=b {
                        for x in l..=r {
                            e += (img.get_pixel(x, y)[0] as f64 - m).powi(2);
                        }
                    }
                    e /= n;
                    check!((v - e).abs() <= 1e-6 * (1.0 + e), "variance of [{l},{r}]x[{t},{b}] = {v}, expected {e}");
                }
            }
        }
    }
    Ok(())
}

/// One sum type, four layouts.
fn typed<T>(ch: &mut Ch) -> R
where
    T: Val + From<u8> + std::ops::AddAssign,
    Luma<T>: Pixel<Subpixel = T>,
    LumaA<T>: Pixel<Subpixel = T>,
    Rgb<T>: Pixel<Subpixel = T>,
    Rgba<T>: Pixel<Subpixel = T>,
{
    let (w, h) = ch.pick(&[(1u32, 1u32), (4, 4), (2, 5), (5, 3), (0, 3), (16, 1)]);
    let pt = ch.choose(NPAT);
    ch.log(|| format!("sums in {} {w}x{h} pattern {pt}", T::NAME));
    // the sum of the squares fits every type
    macro_rules! sums {
        ($P:ty, $Q:ty) => {{
            let mut img: Img<$P> = u8_pat(pt, w, h);
            img.iter_mut().for_each(|v| *v &= 3);
            let cc = <$P as Pixel>::CHANNEL_COUNT as usize;
            ch.ops(2);
            let (s, q): (Img<$Q>, Img<$Q>) = (integral_image::<$P, T>(&img), integral_squared_image::<$P, T>(&img));
            check!(s.dimensions() == (w + 1, h + 1) && q.dimensions() == (w + 1, h + 1), "dimensions");
            for y in 0..=h {
                for x in 0..=w {
                    for c in 0..cc {
                        let (mut es, mut eq) = (0u8, 0u8);
                        for b in 0..y {
                            for a in 0..x {
                                let v = img.get_pixel(a, b).channels()[c];
                                es += v;
                                eq += v * v;
                            }
                        }
                        let (gs, gq) = (s.get_pixel(x, y).channels()[c], q.get_pixel(x, y).channels()[c]);
                        check!(gs == <T as From<u8>>::from(es) && gq == <T as From<u8>>::from(eq), "{cc} channels: ({x},{y})[{c}] = {gs:?} and {gq:?}, expected {es} and {eq}");
                    }
                }
            }
            (img, s)
        }};
    }
    macro_rules! rects_of {
        ($i:ident, $s:ident, $cc:expr) => {{
            for l in 0..w {
                for t in 0..h {
                    for r in l..w {
                        for b in t..h {
                            ch.op();
                            let g = sum_image_pixels(&$s, l, t, r, b);
                            for c in 0..$cc {
                                let e: u8 = (t..=b).flat_map(|y| (l..=r).map(move |x| (x, y))).map(|(x, y)| $i.get_pixel(x, y).channels()[c]).sum();
                                check!(g[c] == <T as From<u8>>::from(e), "sum over [{l},{r}]x[{t},{b}] channel {c} of {} = {:?}, expected {e}", $cc, g[c]);
                            }
                        }
                    }
                }
            }
        }};
    }
    let (i, s) = sums!(Luma<u8>, Luma<T>);
    rects_of!(i, s, 1);
    sums!(LumaA<u8>, LumaA<T>);
    let (i, s) = sums!(Rgb<u8>, Rgb<T>);
    rects_of!(i, s, 3);
    let (i, s) = sums!(Rgba<u8>, Rgba<T>);
    rects_of!(i, s, 4);
    Ok(())
}

fn main() {
    run("C06", |r| {
        r.section("layouts", "all shapes 0..=9 squared (thorough 14) x 10 patterns x Luma/Rgb/Rgba; every cell, every rectangle", |ch| {
            let n = if ch.thorough { 14 } else { 9 };
            let (w, h) = (ch.u(0, n), ch.u(0, n));
            let pt = ch.choose(NPAT);
            let layout = ch.choose(3);
            ch.log(|| format!("{w}x{h} pattern {pt} layout {layout}"));
            match layout {
                0 => {
                    let (i, ii, sq) = layout!(ch, Luma<u8>, Luma<u32>, w, h, pt);
                    rects!(ch, i, ii, 1);
                    let _ = sq;
                    ch.observe_bytes(i.as_raw());
                }
                1 => {
                    let (i, ii, _) = layout!(ch, Rgb<u8>, Rgb<u32>, w, h, pt);
                    rects!(ch, i, ii, 3);
                }
                _ => {
                    let (i, ii, _) = layout!(ch, Rgba<u8>, Rgba<u32>, w, h, pt);
                    rects!(ch, i, ii, 4);
                }
            }
            Ok(())
        });
        r.section("tiny", "all images of area<=8 (thorough 10) over {0,1,255}: variance of every rectangle, running sums with paddings 0..20", |ch| {
            let a = if ch.thorough { 10 } else { 8 };
            let (w, h) = shape(ch, 1, a, a);
            let img = gray(ch, w, h, &[0, 1, 255]);
            ch.log(|| show(&img));
            ch.observe_bytes(img.as_raw());
            variances(ch, &img)?;
            running(ch, &img)
        });
        r.section("sweep", "shapes 1..=7 squared and larger ones x pattern family: variances and running sums", |ch| {
            let (w, h) = (ch.u(1, 7), ch.u(1, 7));
            let img = gray_family(ch, w, h);
            ch.log(|| show(&img));
            ch.observe_bytes(img.as_raw());
            variances(ch, &img)?;
            running(ch, &img)
        });
        r.section("large", "8 larger shapes x patterns: integral images against a prefix-sum recurrence, running sums", |ch| {
            let (w, h) = large_shape(ch);
            let pt = ch.choose(NPAT);
            ch.log(|| format!("{w}x{h} pattern {pt}"));
            let img: Img<Rgb<u8>> = u8_pat(pt, w, h);
            ch.ops(2);
            let ii = integral_image::<_, u32>(&img);
            let sq = integral_squared_image::<_, u32>(&img);
            for y in 0..=h {
                for x in 0..=w {
                    for c in 0..3 {
                        let g = |i: &Img<Rgb<u32>>, x: u32, y: u32| i.get_pixel(x, y).channels()[c];
                        let (e, e2) = if x == 0 || y == 0 {
                            (0, 0)
                        } else {
                            let v = img.get_pixel(x - 1, y - 1).channels()[c] as u32;
                            (
                                g(&ii, x - 1, y) + g(&ii, x, y - 1) - g(&ii, x - 1, y - 1) + v,
                                g(&sq, x - 1, y) + g(&sq, x, y - 1) - g(&sq, x - 1, y - 1) + v * v,
                            )
                        };
                        check!(g(&ii, x, y) == e && g(&sq, x, y) == e2, "cell ({x},{y})[{c}]");
                    }
                }
            }
            running(ch, &gray_pat(pt, w, h))
        });
        r.section("narrow-sum-type", "rectangle sums where all integral values fit the sum type, including its maximum: u16 and all-white shapes up to area 257", |ch| {
            let (w, h) = ch.pick(&[(16u32, 16u32), (257, 1), (1, 257), (128, 2), (3, 85)]);
            ch.log(|| format!("white {w}x{h}, u16 sums"));
            let img = GrayImage::from_pixel(w, h, Luma([255]));
            let ii = integral_image::<_, u16>(&img);
            for l in 0..w {
                for t in 0..h {
                    for (r, b) in [(w - 1, h - 1), (l, t), (w - 1, t), (l, h - 1)] {
                        ch.op();
                        let s = sum_image_pixels(&ii, l, t, r, b)[0] as u32;
                        let e = 255 * (r - l + 1) * (b - t + 1);
                        check!(s == e, "sum over [{l},{r}]x[{t},{b}] = {s}, expected {e}");
                    }
                }
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: integral images against a prefix-sum recurrence, running sums, rectangles between a few coordinates", |ch| {
            let (w, h) = sweep_shape(ch);
            let img: Img<Rgb<u8>> = u8_pat(0, w, h);
            ch.log(|| format!("{w}x{h}"));
            ch.ops(2);
            let ii = integral_image::<_, u32>(&img);
            let sq = integral_squared_image::<_, u32>(&img);
            check!(ii.dimensions() == (w + 1, h + 1) && sq.dimensions() == (w + 1, h + 1), "dimensions");
            let (mut s, mut q) = (vec![[0u32; 3]; ((w + 1) * (h + 1)) as usize], vec![[0u32; 3]; ((w + 1) * (h + 1)) as usize]);
            let at = |x: u32, y: u32| (y * (w + 1) + x) as usize;
            for y in 0..=h {
                for x in 0..=w {
                    for c in 0..3 {
                        if x > 0 && y > 0 {
                            let v = img.get_pixel(x - 1, y - 1)[c] as u32;
                            s[at(x, y)][c] = s[at(x - 1, y)][c] + s[at(x, y - 1)][c] - s[at(x - 1, y - 1)][c] + v;
                            q[at(x, y)][c] = q[at(x - 1, y)][c] + q[at(x, y - 1)][c] - q[at(x - 1, y - 1)][c] + v * v;
                        }
                        let (g, g2) = (ii.get_pixel(x, y)[c], sq.get_pixel(x, y)[c]);
                        check!(g == s[at(x, y)][c] && g2 == q[at(x, y)][c], "cell ({x},{y})[{c}]: {g} and {g2}, expected {} and {}", s[at(x, y)][c], q[at(x, y)][c]);
                    }
                }
            }
            let some = |n: u32| { let mut v = vec![0, n / 3, n / 2, n - 1]; v.dedup(); v };
            for l in some(w) {
                for t in some(h) {
                    for r in some(w).into_iter().filter(|r| *r >= l) {
                        for b in some(h).into_iter().filter(|b| *b >= t) {
                            ch.op();
                            let g = sum_image_pixels(&ii, l, t, r, b);
                            for c in 0..3 {
                                let e = s[at(r + 1, b + 1)][c] + s[at(l, t)][c] - s[at(l, b + 1)][c] - s[at(r + 1, t)][c];
                                check!(g[c] == e, "sum over [{l},{r}]x[{t},{b}] channel {c} = {}, expected {e}", g[c]);
                            }
                        }
                    }
                }
            }
            running(ch, &gray_pat(0, w, h))
        });
        r.section("element-sums", "element-wise sums and differences of pixels of 1, 3 and 4 channels of u8, u32 and f64, values from 0, 1, 2, 9, 100", |ch| {
            use imageproc::integral_image::ArrayData;
            let vals = [0u8, 1, 2, 9, 100];
            let (k, n) = (ch.choose(9), [1, 3, 4][ch.choose(3)]);
            let a: Vec<u8> = (0..n).map(|_| ch.pick(&vals)).collect();
            // any other values, differing between the channels
            let b: Vec<u8> = (0..n).map(|i| vals[(k + i * 3) % 5] / 2 + (k / 5) as u8).collect();
            ch.ops(3);
            macro_rules! go {
                ($t:ty) => {{
                    let a: Vec<$t> = a.iter().map(|&v| v as $t).collect();
                    let b: Vec<$t> = b.iter().map(|&v| v as $t).collect();
                    let (data, sum, diff): (Vec<$t>, Vec<$t>, Vec<$t>) = match n {
                        1 => (
                            Luma([a[0]]).data().to_vec(),
                            Luma::<$t>::add([a[0]], [b[0]]).to_vec(),
                            Luma::<$t>::sub([a[0] + b[0]], [b[0]]).to_vec(),
                        ),
                        3 => (
                            Rgb([a[0], a[1], a[2]]).data().to_vec(),
                            Rgb::<$t>::add([a[0], a[1], a[2]], [b[0], b[1], b[2]]).to_vec(),
                            Rgb::<$t>::sub([a[0] + b[0], a[1] + b[1], a[2] + b[2]], [b[0], b[1], b[2]]).to_vec(),
                        ),
                        _ => (
                            Rgba([a[0], a[1], a[2], a[3]]).data().to_vec(),
                            Rgba::<$t>::add([a[0], a[1], a[2], a[3]], [b[0], b[1], b[2], b[3]]).to_vec(),
                            Rgba::<$t>::sub([a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]], [b[0], b[1], b[2], b[3]]).to_vec(),
                        ),
                    };
                    let e: Vec<$t> = a.iter().zip(&b).map(|(a, b)| a + b).collect();
                    check!(data == a, "the data of {a:?} are {data:?}");
                    check!(sum == e, "{a:?} + {b:?} = {sum:?}");
                    check!(diff == a, "{e:?} - {b:?} = {diff:?}");
                }};
            }
            go!(u8);
            go!(u32);
            go!(f64);
            Ok(())
        });
        r.section("sum-types", "sums in nine number types (8 to 64 bit, signed, unsigned, float) of grey, grey+alpha, RGB and RGBA images: integral images, squared ones, every rectangle", |ch| with_luma!(ch, [u8, u16, u32, u64, i16, i32, i64, f32, f64], typed(ch)));
        r.section("padding-ladder", "running sums with every padding 0..=300 and around powers of two up to 2^20, on 6 shapes, buffers exactly long enough and longer", |ch| {
            let l = ladder(300, 1 << 20);
            let pad = ch.pick(&l);
            let (w, h) = ch.pick(&[(1u32, 1u32), (2, 1), (1, 2), (5, 3), (40, 2), (3, 35)]);
            let img = gray_pat(ch.pick(&[0, 6]), w, h);
            let extra = ch.pick(&[0usize, 5]);
            ch.log(|| format!("padding {pad} {w}x{h} buffer longer by {extra}"));
            for col in [false, true] {
                let n = if col { h } else { w };
                let mut buf = vec![0xdead_beefu32; (n + 2 * pad) as usize + extra];
                let line = if col { w - 1 } else { h - 1 };
                ch.op();
                if col {
                    column_running_sum(&img, line, &mut buf, pad);
                } else {
                    row_running_sum(&img, line, &mut buf, pad);
                }
                let mut s = 0u32;
                for i in 0..(n + 2 * pad) as i64 {
                    let p = i - pad as i64;
                    s += if col { clamped(&img, line as i64, p) } else { clamped(&img, p, line as i64) } as u32;
                    check!(buf[i as usize] == s, "column {col}: [{i}] = {}, expected {s}", buf[i as usize]);
                }
            }
            Ok(())
        });
    })
}
