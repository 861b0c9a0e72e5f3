//! C14: disjoint-set forest against the partition model.
use imageproc::union_find::DisjointSetForest;
use mc::*;

/// class[i]: smallest member of i's set.
fn merge(class: &mut [usize], i: usize, j: usize) {
    let (a, b) = (class[i], class[j]);
    let (lo, hi) = (a.min(b), a.max(b));
    for c in class.iter_mut() {
        if *c == hi {
            *c = lo;
        }
    }
}

fn audit(ch: &mut Ch, f: &mut DisjointSetForest, class: &[usize]) -> R {
    let n = class.len();
    let sets = (0..n).filter(|&i| class[i] == i).count();
    check!(f.num_trees() == sets, "num_trees {} with {sets} sets", f.num_trees());
    // queries shorten paths, so each kind of query gets to see the forest as the unions left it
    let first = ch.choose(4);
    ch.log(|| format!("first queried with {}", ["root", "find", "find, backwards", "trees"][first]));
    for round in 0..3 {
        match (first + round) % 4 {
            0 => {
                for i in 0..n {
                    ch.op();
                    let r = f.root(i);
                    check!(r < n && class[r] == class[i], "round {round}: root({i}) = {r} is not in its set");
                }
            }
            3 => {
                let mut seen = vec![false; n];
                let trees = f.trees();
                check!(trees.len() == sets, "{} trees listed, {sets} sets", trees.len());
                for t in &trees {
                    check!(!t.is_empty(), "empty tree listed");
                    for &e in t {
                        check!(e < n && !seen[e], "element {e} listed twice");
                        seen[e] = true;
                        check!(class[e] == class[t[0]], "tree {t:?} mixes sets");
                    }
                }
                check!(seen.iter().all(|&b| b), "trees omit an element");
            }
            k => {
                // every pair while that is affordable, neighbours and far ends otherwise
                let near = |i: usize| if n <= 40 { (0..n).collect::<Vec<_>>() } else { vec![0, i, (i + 1) % n, n - 1 - i, n / 2] };
                for i in 0..n {
                    let i = if k == 1 { i } else { n - 1 - i };
                    for j in near(i) {
                        ch.op();
                        check!(f.find(i, j) == (class[i] == class[j]), "round {round}: find({i},{j}) = {}", f.find(i, j));
                        check!((f.root(i) == f.root(j)) == (class[i] == class[j]), "round {round}: roots of {i} and {j}");
                    }
                }
            }
        }
        check!(f.num_trees() == sets, "num_trees changed by queries");
    }
    Ok(())
}

fn main() {
    run("C14", |r| {
        for (n, dq, dt, name) in [(3usize, 6usize, 7usize, "histories-3"), (4, 5, 6, "histories-4"), (5, 4, 5, "histories-5"), (6, 3, 4, "histories-6")] {
            r.section(name, &format!("all sequences of union(i,j) (any i, j) and root(i) of length <= {dq} (quick) / {dt} on {n} elements, audited at the end"), |ch| {
                let d = ch.choose(if ch.thorough { dt } else { dq }) + 1;
                let mut f = DisjointSetForest::new(n);
                let mut class: Vec<usize> = (0..n).collect();
                for _ in 0..d {
                    let k = ch.choose(n * n + n);
                    ch.op();
                    if k < n * n {
                        f.union(k / n, k % n);
                        merge(&mut class, k / n, k % n);
                        ch.log(|| format!("union({}, {})", k / n, k % n));
                    } else {
                        let i = k - n * n;
                        let r = f.root(i);
                        ch.log(|| format!("root({i}) = {r}"));
                        check!(class[r] == class[i], "root({i}) = {r} is not in its set");
                    }
                }
                ch.observe(class.iter().fold(1, |a, &b| a * 11 + b as u64));
                audit(ch, &mut f, &class)
            });
        }
        r.section("deep-trees", "8 elements merged pairwise into trees of full height with every choice of orientation and representatives, then one query chosen before the audit", |ch| {
            let mut f = DisjointSetForest::new(8);
            let mut class: Vec<usize> = (0..8).collect();
            let mut u = |ch: &mut Ch, f: &mut DisjointSetForest, a: usize, b: usize| {
                let (a, b) = if ch.flag() { (b, a) } else { (a, b) };
                ch.log(|| format!("union({a}, {b})"));
                ch.op();
                f.union(a, b);
                merge(&mut class, a, b);
            };
            for k in 0..4 {
                u(ch, &mut f, 2 * k, 2 * k + 1);
            }
            for k in 0..2 {
                let (a, b) = (4 * k + ch.choose(2), 4 * k + 2 + ch.choose(2));
                u(ch, &mut f, a, b);
            }
            let (a, b) = (ch.choose(4), 4 + ch.choose(4));
            u(ch, &mut f, a, b);
            let q = ch.choose(9);
            if q < 8 {
                f.root(q);
            }
            audit(ch, &mut f, &class)
        });
        r.section("long-chains", "orders of chaining 40 elements (ascending, descending, interleaved, star), with queries in between or not; out-of-range arguments panic", |ch| {
            let n = 40;
            let mut f = DisjointSetForest::new(n);
            let mut class: Vec<usize> = (0..n).collect();
            let kind = ch.choose(5);
            let swap = ch.flag();
            let q = ch.choose(3);
            let upto = ch.choose(n);
            for i in 0..upto {
                let (a, b) = match kind {
                    0 => (i, (i + 1) % n),
                    1 => (n - 1 - i, (2 * n - 2 - i) % n),
                    2 => ((i * 7) % n, (i * 7 + 7) % n),
                    3 => (0, i),
                    _ => (i, i ^ 1),
                };
                let (a, b) = if swap { (b, a) } else { (a, b) };
                f.union(a, b);
                merge(&mut class, a, b);
                if q == 1 {
                    f.root(i);
                } else if q == 2 {
                    f.find(n - 1, i);
                }
            }
            audit(ch, &mut f, &class)?;
            check!(catching(|| f.root(n)).is_err(), "root out of range");
            check!(catching(|| f.union(0, n)).is_err(), "union out of range");
            check!(catching(|| f.find(n, 0)).is_err(), "find out of range");
            Ok(())
        });
        r.section("tall-trees", "2^1..=2^9 (thorough: 2^13) elements merged pairwise into trees of full height, always by the deepest or the first element, in either orientation, or joined in rounds across the middle; then up to one query", |ch| {
            let levels = ch.u(1, if ch.thorough { 13 } else { 9 }) as usize;
            let n = 1usize << levels;
            let (kind, swap) = (ch.choose(4), ch.flag());
            let upto = levels - ch.choose(2);
            let mut f = DisjointSetForest::new(n);
            let mut class: Vec<usize> = (0..n).collect();
            ch.log(|| format!("{n} elements, kind {kind}, swapped {swap}, {upto} levels"));
            for l in 0..upto {
                let s = 1usize << l;
                for b in (0..n).step_by(2 * s) {
                    let (a, b) = match kind {
                        0 => (b, b + s),
                        1 => (b + s - 1, b + 2 * s - 1),
                        2 => (b + s - 1, b + s),
                        _ => (b + s / 2, b + s + s / 2),
                    };
                    let (a, b) = if swap { (b, a) } else { (a, b) };
                    ch.op();
                    f.union(a, b);
                }
                for (i, c) in class.iter_mut().enumerate() {
                    *c = i / (2 * s) * (2 * s);
                }
            }
            match ch.choose(3) {
                0 => {}
                1 => {
                    f.root(n - 1);
                }
                _ => {
                    f.find(n / 2, n - 1);
                }
            }
            audit(ch, &mut f, &class)
        });
        r.section("empty", "forest without elements", |ch| {
            let n = ch.choose(2);
            let mut f = DisjointSetForest::new(n);
            audit(ch, &mut f, &(0..n).collect::<Vec<_>>())
        });
    });
}
