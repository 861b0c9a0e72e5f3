//! C18: BRIEF descriptors and their matching.
use image::*;
use imageproc::binary_descriptors::brief::*;
use imageproc::binary_descriptors::*;
use imageproc::corners::Corner;
use imageproc::point::Point;
use mc::*;
use std::cell::RefCell;

/// A small descriptor which records the bit sets it is hashed with.
struct D {
    v: u128,
    size: u32,
    id: usize,
    log: RefCell<Vec<Vec<u32>>>,
}

impl D {
    fn new(v: u128, size: u32, id: usize) -> D {
        D { v, size, id, log: RefCell::new(vec![]) }
    }
    fn subset(&self, bits: &[u32]) -> Vec<bool> {
        bits.iter().map(|b| self.v >> b & 1 == 1).collect()
    }
}

impl BinaryDescriptor for D {
    fn get_size(&self) -> u32 {
        self.size
    }
    fn hamming_distance(&self, o: &Self) -> u32 {
        (self.v ^ o.v).count_ones()
    }
    fn get_bit_subset(&self, bits: &[u32]) -> u128 {
        self.log.borrow_mut().push(bits.to_vec());
        bits.iter().fold(0, |a, b| a << 1 | (self.v >> b & 1))
    }
    fn position(&self) -> Point<u32> {
        Point::new(self.id as u32, 0)
    }
}

fn check_match(ch: &mut Ch, v1: &[u128], v2: &[u128], size: u32, thr: u32, seed: u64) -> R {
    let mk = |v: &[u128]| v.iter().enumerate().map(|(i, &v)| D::new(v, size, i)).collect::<Vec<_>>();
    let (d1, d2) = (mk(v1), mk(v2));
    ch.op();
    let m = match_binary_descriptors(&d1, &d2, thr, Some(seed));
    let what = || format!("match_binary_descriptors({v1:?}, {v2:?}, threshold {thr}, seed {seed})");
    let mut got: Vec<Option<usize>> = vec![None; d1.len()];
    for (a, b) in &m {
        check!(
            a.id < d1.len() && std::ptr::eq(*a, &d1[a.id]) && b.id < d2.len() && std::ptr::eq(*b, &d2[b.id]),
            "{}: a pair is not (element of d1, element of d2)",
            what()
        );
        check!(got[a.id].is_none(), "{}: d1[{}] is matched twice", what(), a.id);
        got[a.id] = Some(b.id);
    }
    // bit sets the implementation hashed with
    let mut sets: Vec<Vec<u32>> = vec![];
    for d in d1.iter().chain(&d2) {
        for s in d.log.borrow().iter() {
            if !sets.contains(s) {
                sets.push(s.clone());
            }
        }
    }
    for (i, q) in d1.iter().enumerate() {
        let dist = |j: usize| q.hamming_distance(&d2[j]);
        let in_bucket = |j: usize| sets.iter().any(|s| q.subset(s) == d2[j].subset(s));
        let best = (0..d2.len()).filter(|&j| in_bucket(j)).map(dist).min();
        match got[i] {
            Some(j) => {
                check!(dist(j) < thr, "{}: d1[{i}] matched at distance {}", what(), dist(j));
                check!(
                    best.is_none() || dist(j) <= best.unwrap(),
                    "{}: d1[{i}] matched d2[{j}] at distance {}, but a candidate is at distance {best:?}",
                    what(),
                    dist(j)
                );
            }
            None => {
                check!(
                    best.map_or(true, |b| b >= thr),
                    "{}: d1[{i}] is unmatched although a candidate is at distance {best:?}",
                    what()
                );
                // an identical descriptor always shares every bucket
                check!(
                    thr == 0 || (0..d2.len()).all(|j| dist(j) != 0),
                    "{}: d1[{i}] is unmatched although d2 has a copy",
                    what()
                );
                if d2.len() == 1 {
                    check!(dist(0) >= thr, "{}: d1[{i}] is unmatched although the only one is near", what());
                }
            }
        }
    }
    // the same seed gives the same matches
    let again = match_binary_descriptors(&d1, &d2, thr, Some(seed));
    check!(
        again.iter().map(|(a, b)| (a.id, b.id)).eq(m.iter().map(|(a, b)| (a.id, b.id))),
        "{} differs between calls",
        what()
    );
    ch.observe(got.iter().fold(0u64, |h, g| h * 7 + g.map_or(0, |g| g as u64 + 1)));
    Ok(())
}

fn box_mean(img: &GrayImage, x: i64, y: i64) -> u8 {
    let (mut s, mut n) = (0u32, 0);
    for dy in -2..=2 {
        for dx in -2..=2 {
            let (px, py) = (x + dx, y + dy);
            if px >= 0 && py >= 0 && px < img.width() as i64 && py < img.height() as i64 {
                s += img.get_pixel(px as u32, py as u32)[0] as u32;
                n += 1;
            }
        }
    }
    (s / n) as u8
}

fn tp(a: (u32, u32), b: (u32, u32)) -> TestPair {
    TestPair { p0: Point::new(a.0, a.1), p1: Point::new(b.0, b.1) }
}

/// Bits of the descriptor in the order of the test pairs: the first pair of each 128 is the
/// most significant bit. The patch is the 31x31 square with corners at
/// (x - 14, y - 14) and (x + 16, y + 16).
fn ref_bits(img: &GrayImage, k: Point<u32>, pairs: &[TestPair]) -> Vec<u128> {
    let at = |p: Point<u32>| {
        box_mean(img, k.x as i64 - 14 + p.x as i64, k.y as i64 - 14 + p.y as i64)
    };
    pairs
        .chunks(128)
        .map(|c| c.iter().fold(0u128, |a, t| a << 1 | (at(t.p0) < at(t.p1)) as u128))
        .collect()
}

fn check_brief(ch: &mut Ch, img: &GrayImage, kps: &[Point<u32>], pairs: &Vec<TestPair>) -> R {
    ch.op();
    let (w, h) = img.dimensions();
    let near = |k: &Point<u32>| {
        let far = |v: u32, n: u32| v >= 16 && (v as u64) + 16 < n as u64;
        !far(k.x, w) || !far(k.y, h)
    };
    let got = brief(img, kps, pairs.len(), Some(pairs));
    match got {
        Err(_) => check!(kps.iter().any(near), "brief rejects {kps:?} on {w}x{h}"),
        Ok((d, p)) => {
            check!(!kps.iter().any(near), "brief accepts {kps:?} on {w}x{h}");
            check!(&p == pairs, "brief returns other test pairs than given");
            check!(d.len() == kps.len(), "{} descriptors for {} keypoints", d.len(), kps.len());
            for (d, k) in d.iter().zip(kps) {
                check!(d.position() == *k, "descriptor of {k:?} is at {:?}", d.position());
                check!(d.get_size() as usize == pairs.len(), "size {} for {} tests", d.get_size(), pairs.len());
                let e = ref_bits(img, *k, pairs);
                check!(d.bits == e, "descriptor at {k:?} is {:x?}, expected {e:x?}", d.bits);
                ch.observe(e.iter().fold(0, |a, b| a ^ (*b as u64) ^ (*b >> 64) as u64));
            }
        }
    }
    Ok(())
}

fn main() {
    run("C18", |r| {
        r.section(
            "matching",
            "all sets of up to 3 x 3 descriptors of 2 bits, thresholds 0..3, seeds 0..11 (thorough 39)",
            |ch| {
                let n1 = ch.choose(4);
                let n2 = ch.choose(4);
                let v1: Vec<u128> = (0..n1).map(|_| ch.choose(4) as u128).collect();
                let v2: Vec<u128> = (0..n2).map(|_| ch.choose(4) as u128).collect();
                let seeds = if ch.thorough { 40 } else { 12 };
                for thr in 0..=3 {
                    for seed in 0..seeds {
                        check_match(ch, &v1, &v2, 2, thr, seed)?;
                    }
                }
                Ok(())
            },
        );
        r.section(
            "matching-large",
            "sets of 1..9 x 1..17 descriptors of 4, 8 and 128 bits from six patterns, thresholds around every distance, seeds 0..3",
            |ch| {
                let size = ch.pick(&[4u32, 8, 128]);
                let n1 = ch.pick(&[1usize, 2, 5, 9]);
                let n2 = ch.pick(&[1usize, 2, 3, 4, 5, 8, 9, 17]);
                let k = ch.choose(6) as u128;
                let m = if size == 128 { u128::MAX } else { (1 << size) - 1 };
                let f = |i: usize, s: u128| {
                    let i = i as u128 + s;
                    (match k {
                        0 => i,
                        1 => m ^ i,
                        2 => i.wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835),
                        3 => 1 << (i % size as u128),
                        4 => i / 2,
                        _ => (1u128 << (i % size as u128)).wrapping_sub(1),
                    }) & m
                };
                let v1: Vec<u128> = (0..n1).map(|i| f(i, 1)).collect();
                let v2: Vec<u128> = (0..n2).map(|i| f(i, 0)).collect();
                for thr in [0u32, 1, 2, 3, 4, 8, 64, 65, 129, u32::MAX] {
                    for seed in 0..3 {
                        check_match(ch, &v1, &v2, size, thr, seed)?;
                    }
                }
                Ok(())
            },
        );
        r.section(
            "matching-crowded",
            "databases of 33 to 300 (thorough 1100) descriptors of 16 and 128 bits crowded into few buckets, queries near the first, middle and last, thresholds, seeds 0..3",
            |ch| {
                let size = ch.pick(&[16u32, 128]);
                let ns: &[usize] = if ch.thorough { &[33, 65, 100, 129, 257, 300, 513, 1100] } else { &[33, 65, 100, 129, 257, 300] };
                let n2 = ch.pick(ns);
                let k = ch.choose(4);
                let m = if size == 128 { u128::MAX } else { (1 << size) - 1 };
                let f = |i: usize| {
                    (match k {
                        0 => i as u128,
                        1 => m ^ i as u128,
                        2 => 0,
                        // all far from the query but the last
                        _ => if i + 1 == n2 { 1 } else { m << 3 },
                    }) & m
                };
                let v2: Vec<u128> = (0..n2).map(f).collect();
                let v1: Vec<u128> = [0, 31, 32, n2 / 2, n2 - 2, n2 - 1].iter().map(|&i| f(i)).chain([m, 0, 5]).collect();
                let thr = ch.pick(&[1u32, 2, 8, u32::MAX]);
                for seed in 0..3 {
                    check_match(ch, &v1, &v2, size, thr, seed)?;
                }
                Ok(())
            },
        );
        r.section(
            "matching-brief",
            "BriefDescriptors of 128 to 2048 bits: one candidate at every chosen distance, thresholds around it; databases with a copy of the query",
            |ch| {
                let words = ch.pick(&[1usize, 2, 3, 4, 8, 16]);
                let bits = words * 128;
                let mk = |n: usize, x: u32| {
                    let mut v = vec![0u128; words];
                    for b in 0..n {
                        v[b / 128] |= 1 << (b % 128);
                    }
                    BriefDescriptor { bits: v, corner: Corner::new(x, 4, 1.0) }
                };
                let ds: Vec<usize> = [0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 2047, 2048].into_iter().filter(|&d| d <= bits).collect();
                let d = ch.pick(&ds);
                ch.ops(4);
                for thr in [0u32, 1, 2, d as u32, d as u32 + 1, u32::MAX] {
                    let got = match_binary_descriptors(&[mk(0, 1)], &[mk(d, 2)], thr, Some(7)).len();
                    check!(got == ((d as u32) < thr) as usize, "one candidate at distance {d} of {bits}, threshold {thr}: {got} matches");
                    let db: Vec<_> = ds.iter().enumerate().map(|(i, &d)| mk(d, i as u32 + 10)).collect();
                    let q = [mk(d, 1)];
                    let got = match_binary_descriptors(&q, &db, thr, Some(7));
                    check!(got.len() == (thr > 0) as usize, "query with a copy in the database, threshold {thr}: {} matches", got.len());
                    check!(got.iter().all(|m| m.1.bits == q[0].bits), "query of {d} bits matched with another than its copy");
                }
                Ok(())
            },
        );
        r.section(
            "distance-subset",
            "BriefDescriptors of 128 and 256 bits: all pairs of single-bit, run, mixed, empty and full patterns; the word boundaries of 384 to 2048 bits; bit subsets",
            |ch| {
                let words = ch.pick(&[1usize, 2, 3, 4, 8, 16]);
                let bits = words * 128;
                let mk = |k: usize, i: usize| {
                    let mut v = vec![0u128; words];
                    for b in 0..bits {
                        let on = match k {
                            0 => b == i,
                            1 => b <= i,
                            2 => (b * (i + 3)) % 7 < 3,
                            3 => false,
                            _ => true,
                        };
                        if on {
                            v[b / 128] |= 1 << (b % 128);
                        }
                    }
                    BriefDescriptor { bits: v, corner: Corner::new(3, 4, 1.0) }
                };
                let (ka, kb) = (ch.choose(5), ch.choose(5));
                let at: Vec<usize> = if words <= 2 {
                    (0..bits).collect()
                } else {
                    (0..bits).filter(|b| b % 128 < 2 || b % 128 == 127 || b % 128 == 64).collect()
                };
                let i = ch.pick(&at);
                let a = mk(ka, i);
                for j in at {
                    let b = mk(kb, j);
                    let get = |d: &BriefDescriptor, n: usize| d.bits[n / 128] >> (n % 128) & 1;
                    let e = (0..bits).filter(|&n| get(&a, n) != get(&b, n)).count() as u32;
                    ch.ops(2);
                    check!(
                        a.hamming_distance(&b) == e && b.hamming_distance(&a) == e,
                        "hamming_distance {} expected {e}",
                        a.hamming_distance(&b)
                    );
                    let sel: Vec<u32> = (0..(j % 129)).map(|n| ((n * 5 + j) % bits) as u32).collect();
                    let e = sel.iter().fold(0u128, |acc, &s| acc << 1 | get(&a, s as usize));
                    check!(a.get_bit_subset(&sel) == e, "get_bit_subset({sel:?})");
                }
                check!(a.get_bit_subset(&[]) == 0, "empty subset");
                check!(a.get_size() as usize == bits, "size");
                check!(a.position() == Point::new(3, 4), "position");
                Ok(())
            },
        );
        r.section(
            "brief-patch",
            "every single pixel of the 35x35 support set, test pairs covering every patch position against the corner, two keypoints and image shapes",
            |ch| {
                let (w, h, k) = ch.pick(&[(33u32, 33u32, (16u32, 16u32)), (40, 36, (20, 17)), (40, 36, (23, 19))]);
                let bg = ch.pick(&[0u8, 255, 100]);
                let py = ch.u(0, h - 1);
                let mut pairs = vec![];
                for y in 0..31 {
                    for x in 0..31 {
                        pairs.push(tp((x, y), ((x + 13) % 31, (y + 17) % 31)));
                        pairs.push(tp(((x + 13) % 31, (y + 17) % 31), (x, y)));
                    }
                }
                let n = pairs.len() / 128 * 128;
                pairs.truncate(n);
                for px in 0..w {
                    let mut img = GrayImage::from_pixel(w, h, Luma([bg]));
                    img.put_pixel(px, py, Luma([if bg == 255 { 0 } else { 255 }]));
                    check_brief(ch, &img, &[Point::new(k.0, k.1)], &pairs)?;
                }
                Ok(())
            },
        );
        r.section(
            "brief-patterns",
            "pattern images, 128..384 tests, several keypoints at once; equal patches give equal descriptors",
            |ch| {
                let k = ch.choose(NPAT);
                let n = ch.pick(&[128usize, 256, 384]);
                let s = ch.choose(6);
                let img = gray_pat(k, 48, 41);
                let pairs: Vec<_> = (0..n)
                    .map(|i| {
                        let q = (i * (2 * s + 7) + s) as u32;
                        tp((q % 31, q / 31 % 31), (q * 5 % 31, (q * 11 + 3) % 31))
                    })
                    .collect();
                let kps = [Point::new(16, 16), Point::new(31, 24), Point::new(20, 20), Point::new(16, 16), Point::new(29, 16)];
                check_brief(ch, &img, &kps, &pairs)?;
                check_brief(ch, &img, &[], &pairs)?;
                // a patch moved with its keypoint
                let (dx, dy) = (ch.u(0, 3), ch.u(0, 3));
                let moved = GrayImage::from_fn(48 + dx, 41 + dy, |x, y| {
                    if x >= dx && y >= dy { *img.get_pixel(x - dx, y - dy) } else { Luma([77]) }
                });
                let a = brief(&img, &[Point::new(20, 20)], n, Some(&pairs)).unwrap().0;
                let b = brief(&moved, &[Point::new(20 + dx, 20 + dy)], n, Some(&pairs)).unwrap().0;
                check!(a[0].bits == b[0].bits, "equal patches have different descriptors");
                Ok(())
            },
        );
        r.section(
            "brief-borders",
            "keypoints at every position within and beyond images of shapes around the patch size",
            |ch| {
                let (w, h) = (ch.pick(&[0u32, 1, 31, 32, 33, 34, 36]), ch.pick(&[0u32, 1, 31, 32, 33, 34, 36]));
                let img = gray_pat(6, w, h);
                let pairs: Vec<_> = (0..128u32).map(|i| tp((i % 31, 30 - i % 29), (30 - i % 23, i % 31))).collect();
                let x = ch.u(0, w + 2);
                for y in 0..h + 3 {
                    check_brief(ch, &img, &[Point::new(x, y)], &pairs)?;
                }
                Ok(())
            },
        );
        r.section(
            "brief-lengths",
            "declared lengths 0..520 against the number of test pairs; generated test pairs",
            |ch| {
                let len = ch.choose(521);
                let img = gray_pat(6, 40, 40);
                let k = [Point::new(18, 20)];
                for n in [127usize, 128, 129, 256, len] {
                    let pairs = vec![tp((1, 2), (3, 4)); n];
                    let ok = brief(&img, &k, len, Some(&pairs)).is_ok();
                    ch.op();
                    check!(
                        ok == (len % 128 == 0 && len == n),
                        "length {len} with {n} pairs accepted: {ok}"
                    );
                }
                if len % 128 == 0 && len > 0 {
                    let (d, pairs) = brief(&img, &k, len, None).map_err(|e| Fail::from(e))?;
                    check!(pairs.len() == len, "{} generated pairs", pairs.len());
                    check!(
                        pairs.iter().all(|t| t.p0.x < 31 && t.p0.y < 31 && t.p1.x < 31 && t.p1.y < 31),
                        "generated pair outside the patch"
                    );
                    check!(d[0].bits == ref_bits(&img, k[0], &pairs), "descriptor with generated pairs");
                } else if len % 128 != 0 {
                    check!(brief(&img, &k, len, None).is_err(), "length {len} accepted");
                }
                Ok(())
            },
        );
    });
}
