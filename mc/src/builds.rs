//! What the library computes when built without worker threads, compared with this build.

use crate::api::{ops, Pk};
use crate::dense::dense;
use crate::{check, fail, gray_pat, Ch, R};
use image::GrayImage;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};

/// Shapes and patterns: every shape up to 4x4, and some larger ones.
pub fn images() -> Vec<GrayImage> {
    let mut v = vec![];
    for w in 0..=4 {
        for h in 0..=4 {
            v.push(gray_pat(if (w + h) % 2 == 0 { 0 } else { 8 }, w, h));
        }
    }
    for (k, w, h) in [(0, 9, 7), (9, 8, 16), (6, 17, 13), (3, 33, 5), (8, 40, 33), (4, 2, 70), (1, 64, 65), (7, 130, 3), (5, 2, 1100), (5, 1100, 2), (0, 3, 2100), (6, 5000, 1)] {
        v.push(gray_pat(k, w, h));
    }
    v
}

pub fn names() -> Vec<&'static str> {
    ops().iter().map(|o| o.0).chain(dense().iter().map(|d| d.0)).collect()
}

/// The digests of operation `n` for image `img`, for every combination of its parameters.
pub fn digests(n: usize, img: &GrayImage) -> Vec<(Vec<usize>, u64)> {
    let (ops, dense) = (ops(), dense());
    let mut out = vec![];
    if n < ops.len() {
        let big = img.width() * img.height() > 64;
        let mut script = Some(vec![]);
        while let Some(s) = script {
            let mut p = Pk::scripted(s.clone(), if big { 3 } else { 5 });
            let d = catch_unwind(AssertUnwindSafe(|| ops[n].1(&mut p, img))).unwrap_or(0xDEAD);
            let d = if p.excluded() { 1 } else { d };
            script = p.next_script();
            out.push((s, d));
        }
    } else {
        let (_, len, f) = dense[n - ops.len()];
        for k in 0..len {
            out.push((vec![k], catch_unwind(AssertUnwindSafe(|| f(k, img))).unwrap_or(0xDEAD)));
        }
    }
    out
}

/// Prints the digests of every operation.
pub fn print_all() {
    std::panic::set_hook(Box::new(|_| {}));
    let next = std::sync::atomic::AtomicUsize::new(0);
    let (n, imgs) = (names().len(), images());
    let lines = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= n {
                    return;
                }
                for (j, img) in imgs.iter().enumerate() {
                    let d: Vec<String> = digests(k, img).iter().map(|d| format!("{:x}", d.1)).collect();
                    lines.lock().unwrap().push(format!("{k} {j} {}", d.join(" ")));
                }
            });
        }
    });
    println!("{}", lines.into_inner().unwrap().join("\n"));
}

type Table = BTreeMap<(usize, usize), Vec<u64>>;
fn sequential() -> &'static Result<Table, String> {
    static T: OnceLock<Result<Table, String>> = OnceLock::new();
    T.get_or_init(|| {
        let bin = std::env::var("MC_SEQ").map_err(|_| "MC_SEQ is not set: run check.sh".to_string())?;
        let out = std::process::Command::new(bin).output().map_err(|e| e.to_string())?;
        if !out.status.success() {
            return Err(format!("the library built without rayon ended with {}", out.status));
        }
        let mut t = Table::new();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let mut f = l.split(' ');
            let mut num = || f.next().and_then(|s| s.parse().ok()).ok_or("unreadable output");
            let key = (num()?, num()?);
            t.insert(key, f.filter(|s| !s.is_empty()).map(|s| u64::from_str_radix(s, 16).unwrap()).collect());
        }
        Ok(t)
    })
}

/// Compares the two builds on one of the operations whose name satisfies `which`, for one image.
pub fn same_in_both_builds(ch: &mut Ch, which: fn(&str) -> bool) -> R {
    let all = names();
    let some: Vec<usize> = (0..all.len()).filter(|&n| which(all[n])).collect();
    let n = some[ch.choose(some.len())];
    let imgs = images();
    let j = ch.choose(imgs.len());
    ch.log(|| format!("{} of image {j} ({:?}), all parameters, as built here and in a release build without the feature rayon", all[n], imgs[j].dimensions()));
    let table = match sequential() {
        Ok(t) => t,
        Err(e) => fail!("{e}"),
    };
    let here = digests(n, &imgs[j]);
    ch.ops(2 * here.len() as u64);
    ch.add_traces(here.len() as u64);
    let Some(there) = table.get(&(n, j)) else { fail!("the build without rayon gave no result") };
    check!(there.len() == here.len(), "{}: {} combinations of parameters, without rayon {}", all[n], here.len(), there.len());
    for ((script, a), b) in here.iter().zip(there) {
        check!(
            a == b,
            "{}: another result when the library is built without rayon and run-time checks, image {j} of {:?}, parameters {script:?}{}",
            all[n],
            imgs[j].dimensions(),
            if *b == 0xDEAD { " (it panicked)" } else if *a == 0xDEAD { " (this build panicked)" } else { "" }
        );
        ch.observe(*a);
    }
    Ok(())
}
