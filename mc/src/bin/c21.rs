//! C21: the algebra of projections.
use imageproc::geometric_transformations::Projection;
use mc::*;

type M = [f64; 9];

fn mul(a: &M, b: &M) -> M {
    let mut c = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            c[3 * i + j] = (0..3).map(|k| a[3 * i + k] * b[3 * k + j]).sum();
        }
    }
    c
}
fn det(t: &M) -> f64 {
    t[0] * (t[4] * t[8] - t[5] * t[7]) - t[1] * (t[3] * t[8] - t[5] * t[6]) + t[2] * (t[3] * t[7] - t[4] * t[6])
}
fn inv(t: &M) -> M {
    let d = det(t);
    let c = |a: usize, b: usize, e: usize, f: usize| (t[a] * t[b] - t[e] * t[f]) / d;
    [c(4, 8, 5, 7), c(2, 7, 1, 8), c(1, 5, 2, 4), c(5, 6, 3, 8), c(0, 8, 2, 6), c(2, 3, 0, 5), c(3, 7, 4, 6), c(1, 6, 0, 7), c(0, 4, 1, 3)]
}
/// The image of a point, unless it is (nearly) at infinity.
fn map(m: &M, p: (f64, f64)) -> Option<(f64, f64)> {
    let d = m[6] * p.0 + m[7] * p.1 + m[8];
    let s = (m[6].abs() + m[7].abs()) * (1.0 + p.0.abs() + p.1.abs()) + m[8].abs();
    if d.abs() < 2e-2 * s {
        return None;
    }
    Some(((m[0] * p.0 + m[1] * p.1 + m[2]) / d, (m[3] * p.0 + m[4] * p.1 + m[5]) / d))
}

const PTS: [(f32, f32); 7] = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (3.0, 5.0), (-2.0, 7.5), (40.0, 10.0), (0.25, -0.5)];

fn agree(p: &Projection, m: &M, tol: f64) -> R {
    agree_at(p, m, tol, &PTS)
}
fn agree_at(p: &Projection, m: &M, tol: f64, pts: &[(f32, f32)]) -> R {
    for &q in pts {
        let Some(e) = map(m, (q.0 as f64, q.1 as f64)) else { continue };
        for g in [*p * q, p * &q] {
            let t = tol * (1.0 + e.0.abs() + e.1.abs() + q.0.abs() as f64 + q.1.abs() as f64);
            check!((g.0 as f64 - e.0).abs() <= t && (g.1 as f64 - e.1).abs() <= t, "maps {q:?} to {g:?}, expected {e:?}");
        }
    }
    Ok(())
}

fn generators() -> Vec<(Projection, M, String)> {
    let mut v: Vec<(Projection, M, String)> = vec![];
    for (x, y) in [(3.0f32, -2.0f32), (0.5, 0.25)] {
        v.push((Projection::translate(x, y), [1.0, 0.0, x as f64, 0.0, 1.0, y as f64, 0.0, 0.0, 1.0], format!("translate({x},{y})")));
    }
    for a in [0.3f32, std::f32::consts::FRAC_PI_2, -2.5] {
        let (s, c) = (a as f64).sin_cos();
        v.push((Projection::rotate(a), [c, -s, 0.0, s, c, 0.0, 0.0, 0.0, 1.0], format!("rotate({a})")));
    }
    for (x, y) in [(2.0f32, 0.5f32), (-1.0, 3.0)] {
        v.push((Projection::scale(x, y), [x as f64, 0.0, 0.0, 0.0, y as f64, 0.0, 0.0, 0.0, 1.0], format!("scale({x},{y})")));
    }
    for m in [
        [1.0f32, 2.0, 3.0, 0.0, 1.0, -1.0, 0.0, 0.0, 1.0],
        [1.0, 0.0, 4.0, 0.0, 1.0, 6.0, 0.0, 0.0, 2.0],
        [1.0, 0.0, -1.0, 0.0, 1.0, 2.0, 0.0, 0.0, 1.0],
        [1.0, 0.1, 2.0, 0.0, 1.2, 1.0, 0.01, 0.02, 1.0],
        [0.9, -0.1, 1.0, 0.2, 1.1, -3.0, -0.01, 0.005, -2.0],
        [0.0, 1.0, 2.0, 1.0, 0.0, 1.0, 0.5, 0.25, 0.0],
        [1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 1.0, 1.0],
    ] {
        let mut d = [0.0; 9];
        for i in 0..9 {
            d[i] = m[i] as f64;
        }
        v.push((Projection::from_matrix(m).expect("an invertible matrix is rejected"), d, format!("from_matrix({m:?})")));
    }
    v
}

fn collinear(a: (f32, f32), b: (f32, f32), c: (f32, f32)) -> bool {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0) == 0.0
}
fn general(q: &[(f32, f32); 4]) -> bool {
    (0..4).all(|s| {
        let v: Vec<usize> = (0..4).filter(|&i| i != s).collect();
        !collinear(q[v[0]], q[v[1]], q[v[2]])
    })
}
fn quad(ch: &mut Ch) -> [(f32, f32); 4] {
    let mut q = [(0.0, 0.0); 4];
    for p in q.iter_mut() {
        let k = ch.choose(9);
        *p = ((k % 3) as f32 * 20.0, (k / 3) as f32 * 30.0);
    }
    q
}

fn main() {
    run("C21", |r| {
        r.section("compositions", "all products of up to 4 (thorough 5) of 14 generators (translations, rotations, scalings, affine and projective matrices, zero and negative last entries), each possibly inverted, in three spellings", |ch| {
            let gens = generators();
            let n = ch.choose(if ch.thorough { 5 } else { 4 }) + 1;
            let spell = if n > 1 { ch.choose(3) } else { 0 };
            let mut acc: Option<(Projection, M)> = None;
            for _ in 0..n {
                let k = ch.choose(2 * gens.len());
                let (mut p, mut m, name) = gens[k / 2].clone();
                if k % 2 == 1 {
                    p = p.invert();
                    m = inv(&m);
                }
                ch.log(|| format!("{name}{}", if k % 2 == 1 { " inverted" } else { "" }));
                ch.op();
                // applied after what has been composed so far
                acc = Some(match acc {
                    None => (p, m),
                    Some((q, mq)) => (
                        match spell {
                            0 => p * q,
                            1 => &p * &q,
                            _ => q.and_then(p),
                        },
                        mul(&m, &mq),
                    ),
                });
            }
            let (p, m) = acc.unwrap();
            agree(&p, &m, 3e-4)?;
            let i = p.invert();
            // the inverse matrix in f64 of a product of well-conditioned factors
            agree(&i, &inv(&m), 3e-3).map_err(|f| Fail::from(format!("inverse {}", f.msg)))?;
            agree(&i.invert(), &m, 3e-4)?;
            ch.ops(2);
            Ok(())
        });
        r.section("near-classes", "identity, translation and affine matrices with one or two of the nine entries changed by +-10^-k, k = 1..10, applied, inverted and composed, at points up to 2000 away", |ch| {
            let pts = [(0.0f32, 0.0f32), (1.0, 1.0), (-3.5, 7.0), (200.0, -100.0), (-640.0, 480.0), (1000.0, 2000.0), (-2000.0, -1500.0)];
            let base = ch.pick(&[
                [1.0f32, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0],
                [1.0, 0.0, 3.0, 0.0, 1.0, -2.0, 0.0, 0.0, 1.0],
                [2.0, 0.5, 1.0, -0.25, 1.5, 3.0, 0.0, 0.0, 1.0],
            ]);
            let mut m = base;
            let i = ch.choose(9);
            let j = i + ch.choose(9 - i);
            let k = ch.choose(10) as i32 + 1;
            let e = 10f64.powi(-k) as f32 * if ch.flag() { -1.0 } else { 1.0 };
            m[i] += e;
            if j != i {
                m[j] += if ch.flag() { e } else { -e };
            }
            ch.log(|| format!("matrix {m:?}"));
            let mut d = [0.0f64; 9];
            for i in 0..9 {
                d[i] = m[i] as f64;
            }
            if det(&d).abs() < 0.2 {
                return ch.reject();
            }
            let Some(p) = Projection::from_matrix(m) else { return Err(Fail::from(format!("{m:?} is rejected"))) };
            ch.ops(4);
            agree_at(&p, &d, 3e-6, &pts)?;
            agree_at(&p.invert(), &inv(&d), 2e-5, &pts).map_err(|f| Fail::from(format!("inverse {}", f.msg)))?;
            let t = Projection::translate(5.0, -7.0);
            let tm = [1.0, 0.0, 5.0, 0.0, 1.0, -7.0, 0.0, 0.0, 1.0];
            agree_at(&p.and_then(t), &mul(&tm, &d), 1e-5, &pts).map_err(|f| Fail::from(format!("followed by a translation {}", f.msg)))?;
            agree_at(&t.and_then(p), &mul(&d, &tm), 1e-5, &pts).map_err(|f| Fail::from(format!("after a translation {}", f.msg)))
        });
        r.section("matrices", "all 3x3 matrices over {-1,0,1,2} (thorough {-1,0,1,2,3})", |ch| {
            let n = if ch.thorough { 5 } else { 4 };
            let mut m = [0.0f32; 9];
            let mut d = [0.0f64; 9];
            for i in 0..9 {
                m[i] = ch.choose(n) as f32 - 1.0;
                d[i] = m[i] as f64;
            }
            ch.op();
            ch.log(|| format!("{m:?}"));
            match Projection::from_matrix(m) {
                None => check!(det(&d) == 0.0, "a matrix of determinant {} is rejected", det(&d)),
                Some(p) => {
                    check!(det(&d) != 0.0, "a singular matrix is accepted");
                    agree(&p, &d, 1e-5)?;
                    agree(&p.invert(), &inv(&d), 1e-4).map_err(|f| Fail::from(format!("inverse {}", f.msg)))?;
                    ch.observe_bytes(format!("{m:?}").as_bytes());
                }
            }
            Ok(())
        });
        r.section("control-points", "all ordered quadruples of a 3x3 grid as sources with 8 (quick) or all quadruples as targets", |ch| {
            let from = quad(ch);
            let to = if ch.thorough {
                quad(ch)
            } else {
                ch.pick(&[
                    [(0.0, 0.0), (20.0, 0.0), (20.0, 30.0), (0.0, 30.0)],
                    [(0.0, 0.0), (20.0, 30.0), (20.0, 0.0), (0.0, 30.0)],
                    [(5.0, 7.0), (40.0, 1.0), (33.0, 50.0), (2.0, 41.0)],
                    [(-10.0, 4.0), (1.5, -3.0), (20.0, 9.0), (3.0, 30.0)],
                    [(0.0, 0.0), (10.0, 0.0), (20.0, 0.0), (5.0, 5.0)],
                    [(3.0, 3.0), (3.0, 3.0), (10.0, 0.0), (0.0, 10.0)],
                    [(0.0, 5.0), (0.0, 55.0), (0.0, 5.0), (10.0, 55.0)],
                    [(4.0, 4.0), (4.0, 4.0), (4.0, 4.0), (4.0, 4.0)],
                ])
            };
            ch.op();
            ch.log(|| format!("{from:?} -> {to:?}"));
            let p = Projection::from_control_points(from, to);
            let (gf, gt) = (general(&from), general(&to));
            ch.observe((gf as u64) << 2 | (gt as u64) << 1 | p.is_some() as u64);
            match p {
                Some(p) => {
                    for i in 0..4 {
                        let g = p * from[i];
                        let ok = (g.0 - to[i].0).abs() < 0.02 && (g.1 - to[i].1).abs() < 0.02;
                        check!(ok, "general {gf} {gt}: source {:?} goes to {g:?} instead of {:?}", from[i], to[i]);
                    }
                }
                None => check!(!(gf && gt), "points in general position are rejected"),
            }
            Ok(())
        });
        r.section("angle-ladder", "rotations by every whole degree from -720 to 720 and around the quarter turns, scalings by powers of two (2^-10..2^10) and by eighths up to 16, translations by whole and half numbers up to 300 and powers of two up to 2^20: applied, inverted and composed", |ch| {
            let deg = std::f32::consts::PI / 180.0;
            let (p, m, what, tol): (Projection, M, String, f64) = match ch.choose(3) {
                0 => {
                    let d = ch.int(-720, 720) as f32;
                    let a = d * deg + ch.pick(&[0.0f32, 1e-3, -1e-3, 1e-5]);
                    let (s, c) = (a as f64).sin_cos();
                    (Projection::rotate(a), [c, -s, 0.0, s, c, 0.0, 0.0, 0.0, 1.0], format!("rotate({a})"), 3e-4)
                }
                1 => {
                    let mut l: Vec<f32> = (1..=128).map(|i| i as f32 / 8.0).collect();
                    l.extend((-10..=10).map(|e| 2f32.powi(e)));
                    let (x, y) = (ch.pick(&l), ch.pick(&[1.0f32, -3.0, 0.125]));
                    let x = if ch.flag() { -x } else { x };
                    (Projection::scale(x, y), [x as f64, 0.0, 0.0, 0.0, y as f64, 0.0, 0.0, 0.0, 1.0], format!("scale({x},{y})"), 3e-4)
                }
                _ => {
                    let mut l: Vec<f32> = (0..=600).map(|i| i as f32 / 2.0).collect();
                    l.extend((9..=20).map(|e| 2f32.powi(e)));
                    let x = ch.pick(&l);
                    let (x, y) = ch.pick(&[(x, 0.25f32), (-x, x), (-7.0, -x)]);
                    (Projection::translate(x, y), [1.0, 0.0, x as f64, 0.0, 1.0, y as f64, 0.0, 0.0, 1.0], format!("translate({x},{y})"), 3e-4)
                }
            };
            ch.log(|| what.clone());
            ch.ops(4);
            agree(&p, &m, tol).map_err(|f| Fail::from(format!("{what}: {}", f.msg)))?;
            let q = p.invert();
            agree(&q, &inv(&m), 2.0 * tol).map_err(|f| Fail::from(format!("{what} inverted: {}", f.msg)))?;
            agree(&q.invert(), &m, 2.0 * tol).map_err(|f| Fail::from(format!("{what} inverted twice: {}", f.msg)))?;
            let g = &generators()[ch.pick(&[0usize, 2, 5, 10])];
            let g2 = (g.0, g.1);
            agree(&p.and_then(g2.0), &mul(&g2.1, &m), 2.0 * tol).map_err(|f| Fail::from(format!("{what}, then {}: {}", g.2, f.msg)))
        });
    });
}
