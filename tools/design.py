#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, the evidence of the last runs (bounds) and tools/seed_results.txt."""
import json,os,re
R='/verif'
props=[json.loads(l) for l in open(f'{R}/properties.jsonl')]
INTRO=open(f'{R}/tools/design_intro.md').read()
T={
"C01":"Model: the one-thread row-major evaluation (the crate's sequential twin and, for filters, a naive correlation). The real `rayon` runs on a replacement `rayon-core` (`rayon-core-mc`) whose every scheduling decision - which job a worker takes, whether a pushed job is stolen, how often a bridge splits, which of the runnable workers continues at a scheduling point (join, wait, every call of a user closure) - is a choice of the explorer; preemptions are bounded as stated per section, everything else is unbounded. Reaches what tests cannot: a lost, repeated or misplaced piece shows only for particular splits and steals.",
"C02":"Model: the twin operation, on fresh objects. Enumerates paired operations x inputs x histories of calls on the same buffers, comparing after every call, and compares inputs bit for bit.",
"C03":"Model: naive correlation in i64 with clamped coordinates, converted by clamping. Impulse kernels separate every cell; even sizes, kernels larger than the image and every pixel layout included.",
"C04":"Model: sort (median) or sum (box) of the clamped window, per pixel.",
"C05":"Model: double-precision weighted averages from the definitions; tolerance of the single-precision passes and one unit for integer outputs. Ranges (no result outside the window's range) and constants are checked separately.",
"C06":"Model: direct sums; every rectangle, every row and column, every padding; 8/16/32-bit and float element types with values at the range ends.",
"C07":"Model: per-pixel rule; exhaustive argmax of the between-class variance/entropy over the 256 levels computed with exact integers or f64 with a tie tolerance.",
"C08":"Model: exact integer formulas; for matching, all nearest levels are accepted (ties).",
"C09":"Model: direct counting and f64 formulas.",
"C10":"Model: brute-force nearest foreground pixel.",
"C11":"Model: brute-force metric balls, compositions by definition, containment and idempotence checked separately. Known finding `k255-saturation` is recognised by recomputing the result with saturated distances and listed only if the output equals exactly that.",
"C12":"Model: extremum over the footprint listed from the mask's definition; named masks by their norm for all 256 radii.",
"C13":"Model: flood fill; partition equality, zero iff background, labels 1..n.",
"C14":"Explicit-state search: the states are the structure's observable configurations reachable by union/find/root sequences (deduplicated), the model is a partition; every operation in every state is executed on the real structure and compared. Deep chains are added by enumerating sequences on forests with up to 40 elements.",
"C15":"Model: 8-connected foreground and 4-connected background regions by flood fill, their nesting, and the set of pixels of each border; contours must map one-to-one to the enclosed regions.",
"C16":"Model: brute-force geometry in i128/f64 (all triples for hulls, all hull edges for rectangles, all subsequences or the recursive split for simplification).",
"C17":"Model: segment test over all 16 rotations; score by trying all thresholds. Oriented FAST: the sorted FAST-9 list and f64 centroids.",
"C18":"Model: box means recomputed from the image; matching by re-hashing every descriptor pair for the fixed seed (candidate = agreement on all sampled bits of some table) and taking minima. Known approximation of LSH is part of the statement, not a finding.",
"C19":"Model: quadratic scan.",
"C20":"Model: direct sums in f64 (f32 accumulation tolerance proportional to the terms), exact integers where they fit.",
"C21":"Model: 3x3 matrices in f64, points at or near infinity skipped. Near-class matrices (entries off by 10^-k) force the classification of transforms.",
"C22":"Model: interpolation stencils in f64 at the preimage computed in f64; for maps that are not exactly representable, the preimage may be off by 1e-4 relative and every sample within that box is accepted.",
"C23":"Model: index formulas.",
"C24":"Model: index formulas and `Pixel::blend`.",
"C25":"Model: a recording canvas large enough for the whole primitive (differential between canvases), plus the colours. Polygon rows whose crossing lies exactly half a pixel between columns are exempt from translation invariance (rounding of x.5).",
"C26":"Model: integer Bresenham conditions (count, adjacency, half-pixel distance) and ideal antialias weights.",
"C27":"Model: geometric definitions with exact integers (even-odd rule, rows, distance bounds).",
"C28":"Model: flood fill with an explicit stack.",
"C29":"Model: a synthetic font whose glyph coverage is known exactly (built by the harness) and a real font for confinement; pixels by coverage-weighted sums.",
"C30":"Model: direct enumeration of rectangles per feature type; sums from the image.",
"C31":"Model: cell histograms in f64 by the documented interpolation; rendering against stars drawn one by one.",
"C32":"Model: accumulator in the same single-precision projection, quadratic suppression; drawing against the ideal line in f64.",
"C33":"Model: definitions; all 256 bytes.",
"C34":"Model: dynamic programming over the energy for the minimum; removal by index bookkeeping in original coordinates.",
"C35":"Invariants over all seeds of a range and parameter grids: determinism, pixel sets, statistical moments with bounds that hold for every enumerated seed on the correct tree by a wide margin.",
"C36":"Model: 32x32 reduction with the `image` crate's Lanczos filter and a textbook DCT in f64; signs closer to the mean than the tolerance are left open. Metric axioms over all produced hashes.",
"C37":"Model: gradients of the crate's own blur, non-maximum suppression in exact integers, hysteresis by graph search; images with a gradient direction within 1e-3 degrees of a sector boundary are skipped. Known finding `upward-neighbours` is recognised by recomputing hysteresis with the six neighbours.",
"C38":"Model: naive correlations in i32 and integer square roots.",
"C39":"Model: index formulas, i64 clamping, f64 weighted sums.",
"C40":"Model: point sets.",
"C41":"Every public operation is called on degenerate shapes, extreme parameters, long containers and images beyond 2^16 per side / 2^24 pixels with debug assertions, overflow checks and unsafe-precondition checks; a supervised child process turns aborts, signals and time-outs into violations. Explicit precondition assertions are listed in the harness and must reject exactly the documented arguments.",
"C42":"Model: pixel lists; macros by catching their panic.",
}
ev={}
for p in props:
    f=f'{R}/evidence/{p["id"]}.json'
    if os.path.exists(f): ev[p['id']]=json.load(open(f))
out=[INTRO,"\n## Per property\n\nStates = nodes of the choice tree, executions = complete executions compared with the model, time = wall clock of the section on 8 cores (quick tier).\n"]
for p in props:
    i=p['id']
    out.append(f"\n### {i} {p['title']}\n")
    if i=="C43":
        out.append("Not applicable: the feature needs a display and SDL events; neither a window system nor SDL is available here, and the `display-window` feature cannot be built offline.\n"); continue
    out.append(T[i]+"\n")
    if i in ev:
        out.append("\n| section | bounds | executions | s |\n|---|---|---|---|\n")
        for s in ev[i]['coverage']['sections']:
            out.append(f"| {s['section']} | {s['bounds'].replace('|','/')} | {s['executions']} | {s['wall_s']:.1f} |\n")
out.append("\n## Genuine defects\n\n`known_findings.txt` lists each defect: `fixed:` ones are repaired by `fix:` commits in /repo, `finding:` ones are recorded because the repository's own tests or doctests pin the wrong behaviour (repairing them would break the existing suite).\n\n")
for l in open(f'{R}/known_findings.txt'):
    if l.startswith(('fixed','finding')): out.append('* '+l.strip()+'\n')
out.append("\n## Planted bugs\n\nThe last recorded run of each planted bug against the checks (`missed` entries were followed by strengthening; the table holds the latest result).\n\n| bug | needs | result |\n|---|---|---|\n")
res={}
if os.path.exists(f'{R}/tools/seed_results.txt'):
    for l in open(f'{R}/tools/seed_results.txt'):
        a=l.strip().split(None,1)
        if len(a)==2: res[a[0]]=a[1]
for s in sorted(os.listdir(f'{R}/seeded')):
    m=json.load(open(f'{R}/seeded/{s}/meta.json'))
    out.append(f"| {s} | {m['needs'].replace('|','/')} | {res.get(s,'?')} |\n")
open(f'{R}/DESIGN.md','w').write(''.join(out))
print(len(''.join(out)))
