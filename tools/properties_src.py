import json
P=[]
MECH={
"C02":[("the returning form clones and calls the in-place form","src/contrast.rs, src/distance_transform.rs, src/morphology.rs, src/compose.rs, src/drawing/*.rs"),("warp_into overwrites every output pixel","src/geometric_transformations.rs")],
"C03":[("accumulate over kernel cells with clamped coordinates; separable passes","src/filter/mod.rs")],
"C05":[("normalised kernel and separable pass","src/filter/mod.rs"),("per-window weights","src/filter/bilateral.rs")],
"C06":[("prefix sums with zero first row and column; four-corner differences","src/integral_image.rs")],
"C07":[("per-pixel rule, integral-image block means, histogram scans","src/contrast.rs")],
"C08":[("lookup from (cumulative) histograms","src/contrast.rs")],
"C09":[("one pass accumulation","src/stats.rs")],
"C11":[("thresholding the distance transform","src/morphology.rs")],
"C12":[("mask as runs of offsets per line; running extrema","src/morphology.rs")],
"C13":[("two-pass labelling with union-find of provisional labels","src/region_labelling.rs")],
"C15":[("Suzuki-Abe border following with border numbers","src/contours.rs")],
"C16":[("Graham scan, rotating edges, recursive split","src/geometry.rs")],
"C17":[("early rejection by compass points, cyclic run search, binary search for the score","src/corners.rs")],
"C18":[("integral-image box comparisons; locality-sensitive hashing","src/binary_descriptors/brief.rs, src/binary_descriptors/mod.rs")],
"C20":[("sliding windows with per-method reductions","src/template_matching.rs")],
"C21":[("transform class tracked with the matrix and its inverse","src/geometric_transformations.rs")],
"C22":[("inverse mapping per output pixel and interpolation stencils","src/geometric_transformations.rs")],
"C23":[("row copies and index permutations","src/geometric_transformations.rs")],
"C24":[("bounded copy loops","src/compose.rs")],
"C25":[("bounds tests before drawing each pixel or run","src/drawing/*.rs")],
"C26":[("Bresenham error accumulation; Wu-style weights","src/drawing/line.rs")],
"C27":[("midpoint algorithms and scanline fill","src/drawing/*.rs")],
"C28":[("scanline span stack","src/drawing/fill.rs")],
"C29":[("glyph layout and weighted sum","src/drawing/text.rs")],
"C30":[("feature as weighted rectangles of an integral image","src/haar.rs")],
"C31":[("interpolated votes into cells, block normalisation","src/hog.rs")],
"C32":[("accumulator voting and non-maximum suppression","src/hough.rs")],
"C33":[("bit assembly and tables","src/local_binary_patterns.rs")],
"C34":[("dynamic programming over rows","src/seam_carving.rs")],
"C35":[("seeded generator and clamping","src/noise.rs")],
"C36":[("DCT of a 32x32 reduction, sign against mean","src/image_hash/phash.rs")],
"C37":[("blur, gradients, thinning, hysteresis","src/edges.rs")],
"C38":[("filter with named kernels","src/gradients.rs")],
"C39":[("loops over pixels; saturating conversions","src/map.rs, src/definitions.rs")],
"C40":[("interval arithmetic","src/rect.rs")],
"C42":[("pixel by pixel comparison","src/utils.rs")],
"C43":[("SDL event loop","src/window.rs")],
}
def p(id,title,statement,over,qtext,why,files,mech=None):
    a={"files":files}
    mech = mech or MECH[id]
    a["mechanism"]=[{"name":n,"where":w} for n,w in mech]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Parallel operations equal their sequential counterparts under every schedule",
"Every operation offered in a parallel version, and every operation that uses worker threads internally, returns exactly what the one-thread row-major evaluation returns, whatever the number of worker threads, whether or not the library is built with worker threads at all, the way the work is split, which worker runs which piece, and in which order or interleaving the pieces run. The caller's closures are invoked exactly once per pixel (or subpixel) with the right argument, and nothing but the documented output is modified.",
["schedules","inputs"],"all fork/join execution orders, steals, worker counts and bounded preemptions, for images of every small shape",
"The tests compare a parallel result with the expected image on whatever schedule the pool happens to pick; a split boundary, steal or interleaving that breaks the result is never forced.",
["src/map.rs","src/filter/mod.rs","src/filter/sharpen.rs","src/filter/bilateral.rs","src/compose.rs","src/geometric_transformations.rs","src/template_matching.rs"],
[("fork/join data parallelism over rows, pixels and subpixels","src/map.rs, src/filter/mod.rs, src/geometric_transformations.rs")])

p("C02","Allocating, in-place and into-buffer variants agree and leave inputs untouched",
"For every operation offered both as a function returning a new image and as one working in place or into a caller's buffer, both give the same pixels and dimensions, the returning form leaves its inputs bit-for-bit unchanged, and the into-buffer form overwrites every pixel so its result does not depend on the buffer's previous content. Repeating a call with the same arguments, after any history of other calls on the same objects, gives the same result.",
["inputs","histories"],"all small images and arguments for every paired operation; all short histories of calls reusing the same buffers and objects",
"Tests call one variant on fresh buffers; a pass that leaks earlier buffer content, mutates its input or diverges in one variant only shows on inputs and histories they do not sample.",
["src/compose.rs","src/contrast.rs","src/distance_transform.rs","src/morphology.rs","src/map.rs","src/geometric_transformations.rs","src/noise.rs","src/drawing/mod.rs","src/integral_image.rs","src/haar.rs","src/hough.rs"])

p("C03","Linear filtering is correlation with edge replication",
"Filtering an image with a kernel of any width and height gives, at every pixel and channel, the sum over kernel cells of kernel weight times the source value at the cell's offset from the kernel centre (index = floor(size/2)), with coordinates outside the image clamped to the nearest edge, converted to the output type by the caller's function or by clamping to its range. Horizontal, vertical and separable filtering give the same as the corresponding one-row, one-column and two-pass correlations, and the Laplacian and 3x3 sharpening are the correlations with their named kernels.",
["inputs"],"all images up to a small size over a small value alphabet, all kernel shapes including even sizes and kernels larger than the image, all pixel layouts",
"Tests check a few 3x3 examples; each border region, kernel shape larger than the image, even size and channel layout takes different index arithmetic.",
["src/filter/mod.rs","src/filter/sharpen.rs","src/kernel.rs","src/definitions.rs"],
[("fast path for interior, padded path for borders in 1-d filters","src/filter/mod.rs")])

p("C04","Box and median filters summarise exactly the edge-replicated window",
"At every pixel the box filter returns the integer mean (rounded down) of the integer means (rounded down) of the window's rows, and the median filter returns, per channel, the median of the (2rx+1) by (2ry+1) window centred there, for both with coordinates outside the image clamped to the nearest edge, for every image size and every pair of radii, including radii larger than the image.",
["inputs"],"all images up to a small size over a collision-forcing alphabet x all radii pairs, plus a sweep of shapes up to larger sizes with enumerated pattern families",
"The sliding histograms and running sums carry state from pixel to pixel; tests cover radius 1-2 on a handful of images.",
["src/filter/box_filter.rs","src/filter/median.rs","src/integral_image.rs"],
[("sliding histogram updated as window moves","src/filter/median.rs")])

p("C05","Smoothing filters are normalised weighted averages of the neighbourhood",
"Gaussian blur, bilateral filtering and Gaussian sharpening give, up to rounding, the defining weighted average: Gaussian weights (normalised to one, radius ceil(2 sigma)) with edge replication for blur; for bilateral filtering, weights that are the product of a spatial Gaussian and the caller's colour-distance weight over the square window with edge replication; and for sharpening the source plus amount times (source minus blur). Consequently a constant image is unchanged and no averaged value leaves the range of its window.",
["inputs"],"all small images over a value alphabet x parameter grids (sigma, radius, amount) and impulse images at every position of every shape",
"Tests check a few fixed images; weights depend on sigma, radius and position relative to every border.",
["src/filter/mod.rs","src/filter/bilateral.rs","src/filter/sharpen.rs"])

p("C06","Integral images, rectangle sums, variances and running sums are exact",
"The integral image of a w by h image has dimensions w+1 by h+1 and holds at (x, y) the per-channel sum (or sum of squares) of all source pixels strictly left of x and above y; rectangle sums and variances computed from it equal the direct computation for every inclusive rectangle; row and column running sums with padding equal the running sums of the row or column extended by repeating its end values.",
["inputs"],"all images up to a small size over a small alphabet, all rectangles, all rows/columns and paddings (including larger than the image), all channel layouts",
"Tests check a few images; off-by-one errors at borders and channel mix-ups only show for particular rectangles and layouts.",
["src/integral_image.rs"])

p("C07","Thresholding follows the documented rule and automatic levels are optimal",
"Each threshold mode maps every pixel as documented for every pixel and threshold value; adaptive thresholding sets a pixel to white exactly when it is at least the integer mean of its border-clipped block minus delta (black otherwise). Otsu's level is a maximiser of the between-class variance and Kapur's level a maximiser of the total entropy of the two classes, so no other level separates the image's histogram better.",
["inputs"],"all 256x256 pixel/threshold pairs for each mode; all small images x radii x deltas; all histograms with a few occupied grey levels from a spread alphabet",
"Tests pin a handful of histograms; optimality is a statement about all levels and all histograms.",
["src/contrast.rs"])

p("C08","Contrast mapping is monotone and realises the requested range or histogram",
"Contrast stretching maps the input range linearly (integer arithmetic) onto the output range, sends everything at or below the lower bound to the output minimum and at or above the upper bound to the output maximum, and is monotone. Histogram equalisation maps each grey level to 255 times its cumulative frequency (relative to the lowest occupied level's), hence monotonically, with the highest occupied level mapped to 255; histogram matching maps each source level to a target level whose cumulative frequency is nearest (ties allowed) to the source level's.",
["inputs"],"all bounds quadruples from an alphabet x all pixel values; all small images over a spread alphabet, all pairs of small images for matching",
"Tests use a few images; the mapping is a function of whole histograms and of all bound combinations.",
["src/contrast.rs","src/stats.rs"])

p("C09","Image statistics equal their definitions",
"For every image: the histogram counts each channel value exactly; the cumulative histogram is its running sum; min/max per channel are the extremes; the p-th percentile is the smallest grey level v such that at least p percent of the pixels are at most v; root mean squared error is the square root of the mean squared channel difference and zero iff the images are equal; peak signal-to-noise ratio is 20 log10(255 / rmse).",
["inputs"],"all images (and pairs) up to a small size over a spread value alphabet, all p in 0..=100, several channel layouts",
"Tests sample a few images; multi-channel layouts and each percentile boundary need enumeration.",
["src/stats.rs"])

p("C10","Distance transforms equal the brute-force nearest-foreground distance",
"For every image with at least one non-zero pixel, each pixel of the L1 and LInf distance transforms is the minimum L1 or LInf distance to a non-zero pixel, saturating at 255; the L2 transform is that Euclidean distance rounded up (saturating at 255), and the squared Euclidean transform is the exact minimum squared distance.",
["inputs"],"all binary images up to a small area of every shape, all one- and two-foreground-pixel placements on larger and long thin shapes (reaching saturation)",
"The proptests sample small random images; the two-pass propagation and the parabola envelope have order-dependent corner cases that need every placement.",
["src/distance_transform.rs"],[("two-pass propagation; lower envelope of parabolas","src/distance_transform.rs")])

p("C11","Binary morphology equals the metric-ball set definition",
"For every image, norm and radius k, dilation sets to 255 exactly the pixels within distance k of a non-zero pixel and erosion keeps at 255 exactly the pixels farther than k from every zero pixel (an image without such pixels is unaffected); opening is erosion followed by dilation and closing is dilation followed by erosion. Hence opening is contained in the original, closing contains it away from the border, and both are idempotent.",
["inputs"],"all binary images up to a small area of every shape x 3 norms x all k in an alphabet including 0, values beyond the image size, and 255",
"Tests check one hand-made image per norm and k=1 or 2; all-foreground, all-background and k larger than the image are special.",
["src/morphology.rs","src/distance_transform.rs"])

p("C12","Greyscale morphology takes the exact extremum over the mask's footprint",
"Greyscale dilation (erosion) gives at every pixel the maximum (minimum) of the source over the mask's points placed so that the mask's centre is on the pixel, ignoring points outside the image, with 0 (255) if none remain; opening and closing are their compositions. A mask built from an image contains exactly the offsets of its non-zero pixels from the given centre, and the square, diamond and disk masks contain exactly the offsets whose LInf, L1 and Euclidean norm is at most the radius.",
["inputs"],"all small images over a 3-value alphabet x all masks up to 3x3 with all centres (inside and outside), all radii 0..=255 for the named masks",
"Tests use a few masks; footprint clipping at each border and off-centre masks take separate index arithmetic.",
["src/morphology.rs"])

p("C13","Connected component labels are exactly the same-colour connected regions",
"Two non-background pixels get the same label iff they are joined by a path of equal-coloured pixels under the chosen connectivity; background pixels, and only they, get label 0; and the labels used are exactly 1..=n for n components. This holds for every image shape, including a single row, column or pixel.",
["inputs"],"all images up to a small area of every shape over 2-, 3- and 4-colour alphabets x background choice x both connectivities",
"Tests cover a few hand-drawn images; label merging depends on the exact pattern of provisional labels.",
["src/region_labelling.rs","src/union_find.rs"])

p("C14","Disjoint-set forest refines exactly the equivalence of its union history",
"After any sequence of union, find and root calls, two elements have the same root iff they are linked by the unions performed so far, the root of an element is a member of its own set, the tree count equals the number of sets, and the listed trees partition the elements accordingly. Queries never change the partition.",
["histories"],"all operation sequences (reachable structure states, deduplicated) on up to 5-6 elements",
"Tests run two fixed sequences; path compression and weighting make the structure depend on the whole history.",
["src/union_find.rs"],[("path compression and union by size","src/union_find.rs")])

p("C15","Contours trace exactly the borders of foreground regions and nest correctly",
"Every returned contour is a closed chain of 8-adjacent foreground pixels each lying on a border of the foreground; there is exactly one outer contour per 8-connected foreground component and exactly one hole contour per enclosed 4-connected background region, and each contour's parent is the border that immediately surrounds it, as in the Suzuki-Abe border-following algorithm. A pixel is foreground iff its value exceeds the threshold, and pixels on the image edge are treated as bordering background.",
["inputs"],"all binary images up to a small area of every shape, all threshold positions on multi-level images, nested families on larger images",
"Tests compare a few drawn shapes; topological correctness is a claim over all shapes.",
["src/contours.rs"])

p("C16","Polygon geometry: hulls, areas, lengths, bounding rectangles, simplification",
"For every finite point list: the convex hull is the strictly convex polygon whose vertices are input points and which contains all of them; oriented contour area is the signed shoelace area and contour area its absolute value; arc length is the sum of consecutive distances (plus the closing edge when closed); the minimum-area rectangle contains all points (up to rounding) and its area is minimal over rectangles aligned with a hull edge; Douglas-Peucker simplification returns a subsequence keeping both endpoints such that every dropped point is within epsilon of the chord that replaces it.",
["inputs"],"all point sequences up to a small length on a small grid, with duplicates and collinear runs; epsilon grids",
"Tests use a handful of point lists; degenerate configurations (duplicates, collinear, single edge) are the hard cases.",
["src/geometry.rs","src/point.rs"])

p("C17","FAST corner detection equals the segment test",
"A pixel at distance at least 3 from every image edge is reported as a FAST-n corner exactly when n (9 or 12) contiguous pixels, cyclically, of the 16-pixel circle of radius 3 are all brighter than centre + threshold or all darker than centre - threshold; no other pixel is reported, corners are reported once, and the score is the greatest threshold for which the pixel is still a corner.",
["inputs"],"all 3^16 brighter/similar/darker circle patterns (all contiguous-arc classes) x thresholds, centre values at range ends, and all positions in small images",
"Tests check three hand-made patches; the early-exit comparisons and cyclic runs have 3^16 cases.",
["src/corners.rs"])

p("C18","Binary descriptors encode their tests; matching returns true nearest neighbours",
"A BRIEF descriptor's bits are a function of its test pairs alone, one comparison of local box means per bit, so equal patches give equal descriptors, and hamming distance counts the differing bits; a keypoint too close to the border, a wrong test-pair count or length is rejected as documented. Matching pairs a first-set descriptor with a second-set descriptor only if their distance is below the threshold and no other second-set descriptor is strictly closer, deterministically for a fixed seed.",
["inputs"],"all small sets of descriptors (all pairs of bit patterns from an alphabet), thresholds, seeds; keypoints at all positions near borders",
"Tests check one image and one descriptor count; hashing and candidate selection depend on the whole set.",
["src/binary_descriptors/brief.rs","src/binary_descriptors/mod.rs"])

p("C19","Non-maximum suppression keeps exactly the local maxima",
"Image non-maximum suppression keeps a pixel's value iff it is maximal in its (2r+1)-square neighbourhood clipped to the image, with equal values resolved in favour of the lexicographically smallest (x, y), and sets every other pixel to zero; list suppression keeps exactly the items whose score is maximal among the items within LInf distance r, ties in favour of one deterministic position order.",
["inputs"],"all images up to a small size over a 2-4 value alphabet x all radii 0..=size+1; all sets of items on a small grid with all score assignments",
"The tests compare with random images mostly without ties; ties across block boundaries are the hard case.",
["src/suppress.rs"],[("block decomposition: candidate per block then full check","src/suppress.rs")])

p("C20","Template matching scores equal their formulas everywhere; extremes are exact",
"The result of template matching has dimensions (W-w+1, H-h+1) and holds at each offset exactly the documented score (sum of squared errors, cross-correlation, and their normalised and masked forms) of the template against the image window there; find-extremes returns the minimum and maximum values and the first location, in a fixed scan order, at which each is attained.",
["inputs"],"all images/templates/masks up to a small size over a small alphabet x all methods; larger shapes with pattern families",
"Tests check one or two 4x4 examples per method; normalisation by zero energy and every window position need enumeration.",
["src/template_matching.rs"])

p("C21","Projections form the algebra of plane transforms",
"Applying a composed projection equals applying its parts in order; inverting gives the inverse map; translations, rotations and scalings act as named, and a projection built from four control-point pairs maps each source point to its target; a non-invertible matrix or degenerate control points give none. Composition and inversion agree with matrix algebra whatever kinds of transform (translation, affine, projective) are combined.",
["inputs"],"all compositions up to depth 4 over an alphabet of translations, rotations, scalings and projective maps, all inverses; all 4-point configurations on a small grid",
"Tests check a handful of transforms; class tracking (translation/affine/projection) must be right for all combinations.",
["src/geometric_transformations.rs"])

p("C22","Warping samples the preimage with the chosen interpolation",
"Each output pixel of a warp is the source sampled at the pixel's preimage: nearest takes the nearest source pixel, bilinear and bicubic combine the 4 or 16 surrounding pixels with the standard weights, and preimages outside the source give the default pixel. The identity transform reproduces every source pixel with nearest interpolation and, for bilinear and bicubic, every pixel whose whole interpolation stencil lies inside; rotation about the centre is the corresponding warp.",
["inputs"],"all small images and sizes x translation, affine and projective maps on a fine parameter grid x 3 interpolations, impulse images at every position",
"Tests compare a few images; border stencils, subpixel positions and size mismatches between source and output need a sweep.",
["src/geometric_transformations.rs"])

p("C23","Exact lattice motions permute pixels: translation and quarter turns",
"Translation by (tx, ty) copies source pixel (x-tx, y-ty) to (x, y), taking the nearest edge pixel where that falls outside the source; the 90, 180 and 270 degree rotations are exact permutations of pixels with swapped dimensions for quarter turns, four quarter turns are the identity, and 90 then 270 is the identity, for every shape including single rows, columns and empty images.",
["inputs"],"all shapes up to 6x6, all translations from -8..=8 plus extreme values, all pixel layouts, distinct pixel values",
"Tests check one 3x2 image; each shape parity and each direction of overflow is a separate case.",
["src/geometric_transformations.rs"])

p("C24","Cropping, flipping, replacing and overlaying touch exactly the right pixels",
"Cropping returns the sub-image of the given rectangle; flips mirror exactly and are involutions; replacing copies the part of the top image that fits at the given offset over the bottom image and changes nothing else; overlaying alpha-blends that part onto the bottom image likewise. Offsets at or beyond the edge leave the bottom image unchanged.",
["inputs"],"all pairs of shapes up to 4x4, all rectangles and offsets, all pixel layouts including alpha values from an alphabet",
"Tests check an interior placement; partial overlap at each edge and blend direction are separate cases.",
["src/compose.rs"])

p("C25","Drawing is confined to its primitive and independent of the canvas window",
"Every drawing operation paints, on any canvas, exactly what it would paint on an unbounded plane restricted to that canvas: parts off the canvas are ignored, pixels off the primitive are never modified, all painted pixels get exactly the given colour (or the blend for blending canvases and antialiased primitives), and no coordinates or canvas size, including empty canvases and primitives wholly outside, cause a panic.",
["inputs","histories"],"all primitives with coordinates on a grid straddling every canvas edge x canvas shapes 0..6 x canvas kinds; sequences of two drawings on the same canvas",
"Tests draw mostly inside the canvas; clipping at each of four edges for each primitive is a separate branch.",
["src/drawing/mod.rs","src/drawing/canvas.rs","src/drawing/line.rs","src/drawing/rect.rs","src/drawing/conics.rs","src/drawing/polygon.rs","src/drawing/cross.rs","src/drawing/bezier.rs"])

p("C26","Line rasterisation: endpoints, connectivity, closeness and antialias weights",
"A line segment is rasterised to exactly max(|dx|,|dy|)+1 pixels for integer endpoints, from the start pixel to the end pixel, each step moving to an 8-neighbour and each pixel within half a pixel of the ideal line along the minor axis; pixel iterators visit the same pixels (of the segment between the image's pixels nearest to the end points, if these are off the image) and yield their values (or mutable references). Antialiased segments only touch the pixels straddling the ideal line and the weights of the two pixels of each step are in [0,1] and add up to one.",
["inputs"],"all integer endpoint pairs in a grid (including negative and coincident), a grid of fractional endpoints, all image shapes for the pixel iterators",
"Tests check a few segments per octant; error accumulation depends on each slope.",
["src/drawing/line.rs"])

p("C27","Shape rasterisation: rectangles, circles, ellipses, polygons, curves, crosses",
"Filled rectangles paint exactly the rectangle and hollow ones exactly its boundary; filled circles and ellipses paint rows that are contiguous, symmetric about the centre, and bounded by the corresponding outline, which lies within one pixel of the ideal curve; filled polygons paint every pixel strictly inside by the even-odd rule plus their outline and nothing more than one pixel outside; hollow polygons are the closed chain of their edges; Bezier curves start and end at their end points, stay connected and near the ideal curve; crosses paint the centre and its four neighbours.",
["inputs"],"all centres and radii from a grid, all polygons with up to 4-5 vertices on a small grid, all control points from a grid",
"Tests pin a handful of shapes; symmetric and inside/outside claims concern all radii and vertex configurations.",
["src/drawing/rect.rs","src/drawing/conics.rs","src/drawing/polygon.rs","src/drawing/bezier.rs","src/drawing/cross.rs"])

p("C28","Flood fill recolours exactly the seed's connected same-colour region",
"Flood filling recolours exactly the 4-connected region of pixels equal in colour to the seed pixel, leaves every other pixel unchanged, terminates for every fill colour (including one equal to the region's colour), and is idempotent.",
["inputs"],"all images up to a small area of every shape over 2- and 3-colour alphabets x all seeds x all fill colours",
"One test fills one shape; scanline spans splitting around obstacles depend on each pattern.",
["src/drawing/fill.rs"])

p("C29","Text is drawn inside its measured box and blended by glyph coverage",
"Drawing text changes only pixels inside the box given by the measured text size at the drawing position (up to glyph bearing), blends each pixel between background and text colour by the glyph coverage so that results stay between the two, moves rigidly with the drawing position, is clipped to the canvas, and draws nothing for empty text; the measured size depends only on font, scale and text.",
["inputs"],"all strings up to length 2-3 over a glyph alphabet x scales x positions straddling every edge x canvas sizes",
"The proptest checks containment on random positions inside the canvas; clipping, rigidity and blending are not checked.",
["src/drawing/text.rs","src/pixelops.rs"])

p("C30","Haar-like features: complete enumeration, evaluation is a signed rectangle sum",
"Enumerating features for a frame yields each feature of each type that fits in the frame exactly once, the count function agrees with it, every feature lies inside the frame, and evaluating a feature on an integral image equals the difference of pixel sums of its white and black rectangles; drawing a feature paints exactly those rectangles.",
["inputs"],"all frame sizes up to 8x8 (and 255x1, 1x255 style extremes) x all features x images from pattern families incl. all impulses; the count for every pair of sides whose count fits in a u32",
"Tests count features for one or two frame sizes and evaluate two features.",
["src/haar.rs"])

p("C31","HOG descriptors have the declared length and weigh gradients correctly",
"Options that do not tile the image evenly (cell side, block side, block stride) are rejected with an error and never panic, all others give a descriptor of exactly the declared length; each cell histogram spreads each pixel's gradient magnitude over the nearest orientation bins and cells by interpolation, so every entry is nonnegative and the total over all cells never exceeds the total gradient magnitude, and each block of the descriptor has L2 norm at most one. A constant image gives all zeros.",
["inputs"],"all option combinations over small ranges x all image sizes up to a bound x pattern-family images (all impulses, edges at every position)",
"Tests check one spec and a hand-computed interpolation; validity conditions are over all option combinations.",
["src/hog.rs"])

p("C32","Hough line detection counts votes exactly and draws the detected lines",
"A line (r, angle) is reported iff the number of foreground pixels whose distance projection at that angle rounds to r is at least the vote threshold and no stronger (or equal, earlier) accumulator cell lies within the suppression radius; lines reported satisfy 0 <= angle < 180; drawn polar lines cover the line's intersection with the image and lie within rounding distance of it.",
["inputs"],"all binary images up to a small area, thresholds and suppression radii over small ranges; all (r, angle) pairs for drawing on several shapes",
"Tests draw single lines and check detection; accumulators ties and degenerate intersections need enumeration.",
["src/hough.rs","src/suppress.rs"])

p("C33","Local binary patterns and lookup tables equal their definitions",
"The local binary pattern of an interior pixel has one bit per neighbour, set iff the neighbour is at least the centre, in the documented clockwise order, and is absent on the image border; minimum shift is the least cyclic rotation, transition count the number of cyclic bit changes, and the published tables agree with these functions for every byte.",
["inputs"],"all 256 bytes; all 2^8 (and 3^9) neighbourhoods; all positions of all shapes up to 4x4",
"Tests check a few bytes and one pattern.",
["src/local_binary_patterns.rs"])

p("C34","Seam carving removes minimal-energy connected seams",
"A vertical seam has one column index per row, adjacent rows differ by at most one, and its total gradient energy is minimal among all such seams; removing it deletes exactly those pixels keeping the others in order; shrinking to a target width repeats this until the width is reached; drawing seams marks exactly the pixels that successive removal would delete, in the coordinates of the original image.",
["inputs","histories"],"all images up to a small area over a small alphabet, all target widths, all sequences of seams from successive removals",
"Tests check two trivial images; optimality is over all paths and the coordinate mapping over the whole removal history.",
["src/seam_carving.rs"])

p("C35","Noise is reproducible, channel-clamped and affects what it should",
"For a fixed seed the noise added is a deterministic function of the arguments; rate 0 (or zero deviation and mean) leaves the image unchanged, salt-and-pepper noise replaces pixels only with black or white, every pixel at rate 1, and only some otherwise; Gaussian noise adds, per subpixel, a value with the given mean and deviation, clamped to the channel range without wrap-around.",
["inputs"],"all seeds in a range x rates/means/deviations from alphabets x shapes x pixel layouts and extreme values",
"There are no tests beyond benches; clamping and determinism concern every seed and value.",
["src/noise.rs","src/definitions.rs"])

p("C36","Perceptual hash is deterministic, scale-insensitive, and its distance a metric",
"The perceptual hash of an image is a deterministic function of its content, unchanged when all values are multiplied by a positive constant or the image is enlarged by pixel replication with exact multiples; hamming distance is the number of differing bits, symmetric, zero iff equal, and obeys the triangle inequality.",
["inputs"],"all pattern-family images up to a bound; all pairs and triples of hashes produced; all bit positions",
"Tests compare two or three images; the metric and invariance claims are over all inputs.",
["src/image_hash/phash.rs","src/image_hash/bits.rs","src/image_hash/signals.rs"])

p("C37","Canny edges: thinned, doubly thresholded, hysteresis-connected",
"Every pixel of a Canny result is 0 or 255; every edge pixel is a local maximum of the blurred gradient magnitude along the gradient direction with magnitude at least the low threshold; the result contains every such pixel with magnitude at least the high threshold, and exactly those weaker ones connected to one of them through 8-neighbour chains of such pixels. Raising either threshold never adds edge pixels.",
["inputs"],"all small-alphabet images up to a small size and pattern families on larger shapes x threshold pairs",
"One test checks one image against a stored truth image; connectivity in each of the 8 directions is a separate case.",
["src/edges.rs","src/gradients.rs","src/filter/mod.rs"])

p("C38","Gradients equal the kernel correlations and their magnitude combination",
"Sobel, Scharr and Prewitt horizontal and vertical gradients are the edge-replicated correlations with the named kernels without overflow for any 8-bit input; gradient images are the (truncated) Euclidean norm of the two; the multi-channel gradient map applies the caller's function to the per-channel gradients of each pixel.",
["inputs"],"all 3x3 neighbourhoods over {0,1,255} at all border positions, shapes 1..5, three-channel images",
"Tests check one 3x3 image; overflow and each border position are separate cases.",
["src/gradients.rs","src/kernel.rs"])

p("C39","Pixel mapping and clamping apply the given function at every pixel",
"Mapping functions apply the given function to each pixel (or subpixel, or pixel with its coordinates) and put the result at the same position, combining two images requires equal dimensions, channel extraction and insertion pick the named channel; converting to a pixel type by clamping saturates at the type's bounds and is otherwise the (truncated) value; weighted sums and interpolation of pixels are the clamped weighted sums per channel.",
["inputs"],"all shapes up to 4x4 with distinct values, all mismatching dimension pairs, all boundary values for every clamp pair, weight grids x all u8 pairs",
"Tests check a couple of images; each numeric conversion pair has its own bounds.",
["src/map.rs","src/definitions.rs","src/pixelops.rs"])

p("C40","Rectangle and line algebra",
"A rectangle contains exactly the points (x, y) with left <= x <= right and top <= y <= bottom where right = left + width - 1; the intersection of two rectangles contains exactly the points in both, is absent iff none, and is commutative and idempotent; distance from a point to a line is the Euclidean distance.",
["inputs"],"all pairs of rectangles on a small grid with negative corners and sizes 1..4, extreme coordinates",
"Tests check four pairs; touching, nested and negative configurations need enumeration.",
["src/rect.rs","src/point.rs"])

p("C41","No panic, hang or out-of-bounds access on degenerate sizes and parameters",
"Every operation, given any well-formed image (including zero-width, zero-height, one-row, one-column and one-pixel images) and any parameters not excluded by its documentation, terminates without panicking, without integer overflow and without accessing memory outside its buffers.",
["inputs"],"every public operation x all shapes from 0..=5 in each dimension plus long thin shapes x parameter alphabets with 0, 1, sizes near and beyond the image, type extremes",
"Tests use ordinary images; unchecked accesses and size-minus-one arithmetic fail only on degenerate shapes.",
["src/filter/mod.rs","src/filter/median.rs","src/integral_image.rs","src/distance_transform.rs","src/geometric_transformations.rs","src/suppress.rs","src/contrast.rs","src/corners.rs","src/hough.rs","src/edges.rs","src/template_matching.rs"],
[("unchecked pixel access","src/filter/mod.rs, src/distance_transform.rs, src/geometric_transformations.rs, src/template_matching.rs")])

p("C42","Image comparison helpers report exactly the differing pixels",
"Comparing two images of equal dimensions reports no difference iff all pixels satisfy the equality (or tolerance) criterion and otherwise lists exactly the differing pixels with their coordinates and both values, which the textual description names; the assertion macros fail exactly in that case or when dimensions differ.",
["inputs"],"all pairs of images up to a small size over a 2-3 value alphabet, all tolerances, mismatching dimensions",
"The tests themselves rely on these helpers, so a helper that misses differences silences them.",
["src/utils.rs"])

p("C43","Displaying images in a window shows the image",
"Displaying images opens one window per image showing the image scaled to fit, and returns when the user closes the windows or presses escape.",
["inputs","histories"],"all images and event sequences",
"There are no tests; it needs a display.",
["src/window.rs"])
# final statements, replacing the first drafts above
S={
"C05":"Gaussian blur, bilateral filtering and Gaussian sharpening give, up to rounding, the defining weighted average: Gaussian weights (normalised to one, radius ceil(2 sigma)) with edge replication for blur; for bilateral filtering, weights that are the product of a spatial Gaussian and the caller's colour-distance weight over the square window with edge replication; and for sharpening the source plus amount times (source minus blur). Consequently a constant image stays constant up to rounding (at most one unit per pass for 8-bit values), and no averaged value leaves the range of its window.",
"C08":"Contrast stretching maps the input range linearly (integer arithmetic) onto the output range, sends everything at or below the lower bound to the output minimum and at or above the upper bound to the output maximum, is monotone, and leaves alpha channels untouched. Histogram equalisation maps each grey level to 255 times its cumulative fraction of the pixels rounded down, hence monotonically with the highest occupied level mapped to 255; histogram matching maps each source level to a target level whose cumulative frequency is nearest (ties allowed) to the source level's.",
"C09":"For every image: the histogram counts each channel value exactly; the cumulative histogram is its running sum; min/max per channel are the extremes; the p-th percentile of a non-empty image is the smallest grey level v such that at least p percent of the pixels are at most v. The root mean squared error of two images is the square root of the mean squared channel difference, hence zero iff the images are equal; peak signal-to-noise ratio is 20 log10(max / rmse) with the largest value of the channel type.",
"C11":"For every image, norm and radius k, dilation sets to 255 exactly the pixels within distance k of a non-zero pixel and erosion keeps at 255 exactly the pixels farther than k from every zero pixel (an image without such pixels is unaffected); opening is erosion followed by dilation and closing is dilation followed by erosion. Hence opening is contained in the original, closing contains it, and both are idempotent.",
"C15":"For every 8-connected foreground component (pixels with a value above the threshold; outside the image is background) there is exactly one outer contour, and for every 4-connected background region enclosed by it exactly one hole contour, each a closed chain of 8-adjacent pixels whose set is exactly the component's pixels that are 4-adjacent to the region the contour separates it from. Each contour's parent is the contour of the region that immediately surrounds it (absent at top level).",
"C16":"For every finite point list: the convex hull is the strictly convex polygon whose vertices are input points and which contains all of them; oriented contour area is the signed shoelace area and contour area its absolute value; arc length is the sum of consecutive distances, plus the way back to the first point when closed. The minimum-area rectangle contains all points (corners rounded outwards, in the order top left, top right, bottom right, bottom left) and its area is, up to that rounding, minimal over rectangles aligned with a hull edge. Douglas-Peucker simplification returns a subsequence keeping both endpoints such that every dropped point is within epsilon of the chord that replaces it and every kept inner point was the farthest, beyond epsilon, from a chord it split.",
"C17":"A pixel at distance at least 3 from every image edge is reported as a FAST-n corner exactly when n (9 or 12) contiguous pixels, cyclically, of the 16-pixel circle of radius 3 are all brighter than centre + threshold or all darker than centre - threshold; no other pixel is reported, corners are reported once, and the score is the greatest threshold for which the pixel is still a corner. Oriented FAST returns the best-scoring FAST-9 corners outside the given edge radius, at the given threshold or at one automatically chosen, each with the angle of the intensity centroid of its 31x31 patch cropped to the image, deterministically for a fixed seed.",
"C18":"Each bit of a BRIEF descriptor is one comparison of 5x5 box means at its test pair (the first pair of each 128 being the most significant bit), so equal patches give equal descriptors; hamming distance counts the differing bits; descriptor lengths that are not positive multiples of 128, a wrong number of test pairs, and keypoints closer than 16 pixels to an edge are rejected or skipped as documented. Matching pairs each first-set descriptor at most once, with a second-set descriptor that is nearest among the candidates that agree with it on all sampled bits of some hash table and at a distance below the threshold; an identical descriptor is always found, and the result is deterministic for a fixed seed.",
"C19":"Image non-maximum suppression keeps a pixel's value iff it is maximal in its (2r+1)-square neighbourhood clipped to the image, with equal values resolved in favour of the lexicographically smallest (x, y), and sets every other pixel to zero; list suppression keeps exactly the items whose score is maximal among the items within LInf distance r, ties in favour of the smallest (y, x), whatever the order of the list.",
"C20":"The result of template matching has dimensions (W-w+1, H-h+1) and holds at each offset exactly the documented score (sum of squared errors, cross-correlation, and their normalised and masked forms; the plain score where the norm is zero) of the template against the image window there, up to floating-point rounding. Find-extremes returns the minimum and maximum values and the first location, in row-major order, at which each is attained.",
"C21":"Applying a composed projection equals applying its parts in order; inverting gives the inverse map; translations, rotations and scalings act as named, and a projection built from four control-point pairs maps each source point to its target; a non-invertible matrix or three collinear control points give none. Composition and inversion agree with matrix algebra whatever kinds of transform (translation, affine, projective) are combined.",
"C22":"Each output pixel of a warp is the source sampled at the pixel's preimage: nearest takes the nearest source pixel, bilinear combines the 2x2 pixels from the floor of the preimage and bicubic the 4x4 from one before it with the standard (Catmull-Rom) weights, and preimages whose stencil is not wholly inside the source, or that are not finite, give the default pixel. The identity transform reproduces every source pixel with nearest interpolation and, for bilinear and bicubic, every pixel whose whole interpolation stencil lies inside; rotation about the centre is the corresponding warp.",
"C24":"Cropping returns the sub-image of the given rectangle, which must lie inside the image; flips mirror exactly and are involutions; replacing copies the part of the top image that fits at the given offset over the bottom image and changes nothing else; overlaying alpha-blends that part onto the bottom image likewise. Offsets at or beyond the edge are rejected by an explicit assertion.",
"C25":"Every drawing operation paints, on any canvas, exactly what it would paint on an unbounded plane restricted to that canvas: parts off the canvas are ignored, pixels off the primitive are never modified, and painted pixels get exactly the given colour (for blending canvases and antialiased primitives the blend, up to rounding; a pixel of a filled rectangle, single segment or cross is blended exactly once). Moving a primitive by whole pixels moves what is painted, and no coordinates up to about a million pixels and no canvas size, including empty canvases and primitives wholly outside, cause a panic.",
"C26":"A line segment is rasterised to exactly max(|dx|,|dy|)+1 pixels for integer endpoints (fractional ones are truncated toward zero), running from one end to the other, each step moving to an 8-neighbour and each pixel within half a pixel of the ideal line along the minor axis; pixel iterators over an image visit the same pixels (of the segment between the image's pixels nearest to the end points, if these are off the image) and yield their values (or mutable references). Antialiased segments only touch the pixels straddling the ideal line and the weights of the two pixels of each step are in [0,1] and add up to one.",
"C27":"Filled rectangles paint exactly the rectangle and hollow ones exactly its boundary; filled circles and ellipses with nonnegative radii paint rows that are contiguous, symmetric about the centre, and span the corresponding outline, which lies within about one pixel of the ideal curve; crosses paint the centre and its four neighbours. Filled polygons paint every pixel strictly inside by the even-odd rule plus their outline and nothing more than one pixel outside; hollow polygons are the closed chain of their edges. Bezier curves start and end at their end points, stay connected and within two pixels of the ideal curve.",
"C29":"Drawing text changes only pixels inside the box given by the measured text size at the drawing position (up to glyph bearing), blends each pixel between background and text colour by the glyph coverage so that results stay between the two (up to a unit of rounding), moves rigidly with the drawing position, is clipped to the canvas, and draws nothing for empty text. The measured size depends only on font, scale and text.",
"C31":"Options that do not tile the image evenly (cell side, block side, block stride), zero orientations, cell sides or strides, and blocks larger than the grid are rejected with an error and never panic; all others give a descriptor of exactly the declared length. Each cell histogram spreads each pixel's gradient magnitude over the nearest orientation bins and cells by interpolation, so every entry is nonnegative and the total over all cells never exceeds the total gradient magnitude, and each block of the descriptor has L2 norm at most one; a constant image gives all zeros. Rendering a grid of histograms draws each cell's star within that cell.",
"C32":"A line (r, angle) is reported iff the number of foreground pixels whose projection at that angle truncates to r is at least the vote threshold and no stronger (or equal, with smaller (r, angle)) accumulator cell lies within the suppression radius; lines reported satisfy 0 <= angle < 180. Drawn polar lines cover the line's intersection with the image, lie within two pixels of it and equal the segment between the reported intersection points.",
"C33":"The local binary pattern of an interior pixel has one bit per neighbour, bit i set iff the centre is strictly brighter than neighbour i in the order top, top right, right, bottom right, bottom, bottom left, left, top left, and is absent on the image border. Minimum shift is the least cyclic rotation, transition count the number of cyclic bit changes, and the published tables agree with these functions for every byte (in the uniform table the minimum shift of bytes with at most two transitions and 170 for all others).",
"C34":"A vertical seam of an image at least two pixels wide has one column index per row, adjacent rows differ by at most one, and its total gradient energy is minimal among all such seams; removing it deletes exactly those pixels keeping the others in order. Shrinking to a target width repeats this until the width is reached; drawing seams marks exactly the pixels that successive removal would delete, in the coordinates of the original image.",
"C36":"The perceptual hash is a deterministic function of the image: the distance of two images is the number of differing signs, relative to their mean, of the 8x8 lowest non-constant DCT coefficients of their 32x32 reductions, so it does not change when all values are multiplied by a positive constant or the image is enlarged by pixel replication with exact multiples. Hamming distance is the number of differing bits, symmetric, zero iff equal, and obeys the triangle inequality.",
"C37":"Every pixel of a Canny result is 0 or 255; every edge pixel is a local maximum of the blurred gradient magnitude along the gradient direction with magnitude at least the (positive) low threshold; the result contains every such pixel with magnitude at least the high threshold, and exactly those weaker ones connected to one of them through 8-neighbour chains of such pixels. Raising either threshold never adds edge pixels.",
"C40":"A rectangle contains exactly the points (x, y) with left <= x <= right and top <= y <= bottom where right = left + width - 1 and bottom = top + height - 1. The intersection of two rectangles contains exactly the points in both, is absent iff there is none, and is commutative and idempotent.",
"C41":"Every operation, given any well-formed image (including zero-width, zero-height, one-row, one-column and one-pixel images, images with sides beyond 2^16, and images whose container is longer than needed) and any parameters not excluded by its documentation or an explicit precondition assertion, terminates without panicking, without integer overflow and without accessing memory outside its buffers. Statistics that are undefined for empty images, results that would not fit in memory, and element types the caller chose too small for the sums are excluded.",
}
for x in P:
    if x['id'] in S: x['statement']=S[x['id']]
def title(i,t):
    for x in P:
        if x['id']==i: x['title']=t
title("C40","Rectangle algebra")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
