#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, level="exploration", technique=None, claim=True):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, level=level, technique=technique, claim=claim))

IMG = "every RGBA image (any width and height from 1 px up, any pixel values incl. alpha)"

prop("C01", "Flips, transposes and quarter-turn rotations are exact pixel permutations",
 "Flipping, transposing, transversing and rotating an image by 90/180/270 degrees moves every pixel, all four channel bytes unchanged, to exactly the documented position and loses, duplicates or invents none. They obey the algebra users rely on: every flip, transpose, transverse and half turn undoes itself, 90 followed by 270 is the identity, four quarter turns are the identity, and compositions agree with the corresponding single operation.",
 ["inputs", "histories"], IMG + ", and every sequence of these operations",
 "The unit tests check a few fixed tiny images; index arithmetic errors show only for particular widths/heights (non-square, 1 px wide, odd middle row, widths beyond a block size).",
 ["src/flip.c", "src/rotate.c"],
 [("index arithmetic of each permutation", "src/flip.c, src/rotate.c")],
 ["returned buffer of fcv_flip_x/flip_y/transpose/transverse/rotate_*"],
 "Generated images (tiny per-pixel, patterned, extreme aspect ratios, up to several megapixels) compared with an independent permutation model and group laws over random operation sequences; ASan build.")

prop("C02", "Crop returns exactly the requested rectangle",
 "Cropping returns, byte for byte, the requested rectangle of the input for any channel count, and no other pixels. A rectangle that is not inside the image, that is empty, or whose coordinates overflow when added is rejected (no image) rather than read from outside the image; the command line instead shrinks an oversized rectangle to the part inside the image and rejects a start outside it.",
 ["inputs"], "every image with 1..8 channels and every 32-bit rectangle (x, y, w, h); on the command line every WxH+X+Y",
 "Tests crop one or two rectangles; overflow (x+w wraps around), the last row/column and unusual channel counts are never sampled.",
 ["src/crop.c", "src/cli.c"],
 [("overflow-safe bounds validation, then row copies", "fcv_crop"), ("offset/size clamping", "apply_operation crop branch in src/cli.c")],
 ["fcv_crop result", "flatcv CLI output file"],
 "Model: per-pixel copy of the rectangle; domain biased to boundary and wrap-around coordinates; CLI clamping checked through the real binary.")

prop("C03", "Borders enclose the untouched image with exactly the requested colour",
 "Adding a border of width b yields an image of (w+2b) x (h+2b) whose centre equals the input byte for byte and whose every other pixel has exactly the requested colour with full opacity. This holds for 1, 3 and 4 channel images (the gray level of the colour is used for one channel), and cropping the centre or (for a uniform non-matching frame) trimming gives the input back; a width of 0 or a size that would overflow is rejected.",
 ["inputs"], "every image with 1, 3 or 4 channels, every border width from 1 (incl. overflow-provoking ones) and colour",
 "The test adds one border to one image; corner pixels, channel counts and overflow are input-dependent.",
 ["src/draw.c"], [("fill with border colour, then copy rows", "fcv_add_border")], ["fcv_add_border result and reported size"],
 "Direct model of every output byte plus crop/trim round-trips; overflow widths must return no image.")

prop("C04", "Trim removes all uniform borders and nothing else",
 "Trimming returns a contiguous rectangle of the input, byte for byte, with the reported size: exactly what remains after repeatedly removing outermost rows and columns whose pixels are all identical (for the tolerant form: no channel differs from a reference pixel of that line by more than the given percentage of 255) until no more can be removed. It is therefore idempotent, a zero tolerance equals the exact form, at least one pixel always remains, and content that is not a uniform edge line is never removed.",
 ["inputs"], "every image with 1..4 channels, every tolerance 0..100 %",
 "Tests trim a handful of fixed images; whether a removable edge only appears after another edge was removed, or the last row/column, depends on the content.",
 ["src/trim.c"], [("edge uniformity scans and row copies", "fcv_trim, fcv_trim_threshold")], ["result buffer, updated width/height"],
 "Oracle: validity predicate (result is a sub-rectangle reachable by legal removals, no further removal possible, computed by exhaustive removal search on the generated image), plus idempotence and embedding round-trip.")

prop("C05", "Resize has the requested size and resamples faithfully",
 "Resizing by a positive factor gives an image whose width and height are the input size times the factor, rounded down (an exact target size requested on the command line is met exactly), with every pixel opaque; enlarging interpolates bilinearly and shrinking on either axis averages the covered input area, within about one grey level of the exact real-valued result. Hence constant images stay constant, factor 1 reproduces the colours, values never leave the local input range, exchanging colour channels commutes with resizing, and so do mirroring and transposing whenever the size scales exactly.",
 ["inputs"], "every image and every pair of positive finite scale factors whose output is at least 1x1, incl. shrinking one axis while enlarging the other",
 "Tests look at one or two factors on one picture; rounding of the size, pixel-centre alignment and mixed shrink/enlarge depend on the particular numbers.",
 ["src/conversion.c", "src/cli.c"], [("area filter / bilinear filter", "fcv_resize"), ("target size to scale factor", "resize branch in src/cli.c")],
 ["fcv_resize result", "CLI output size"],
 "Independent double-precision reference for both filters, metamorphic mirror/transpose laws, exhaustive-ish size arithmetic through the library and the CLI.")

prop("C06", "Gaussian blur is a symmetric, normalised, bounded Gaussian average",
 "Blurring with radius r replaces each colour by the normalised Gaussian-weighted average (standard deviation r/3, support the pixels within r, image border renormalised) of the original colours, never leaving the range of the covered input and within about one grey level of the exact value; the result is opaque and has the same size. Constant images are unchanged, radius 0 returns an identical copy, and blurring commutes with mirroring and transposing; negative, non-finite or excessive radii yield no image.",
 ["inputs"], "every image and every radius (integral or fractional) up to the documented maximum 1000, and every invalid radius",
 "The tests only look at one radius for one image; kernel asymmetry, border weights and odd/fractional radii are unreachable for them.",
 ["src/conversion.c"], [("separable kernel with weight renormalisation", "fcv_apply_gaussian_blur")], ["fcv_apply_gaussian_blur result"],
 "Double-precision direct reference with a truncation-aware tolerance interval plus metamorphic mirror/transpose/constant laws.")

prop("C07", "Grayscale conversions follow the luma formula and the contrast-stretch rule",
 "Grayscale conversion maps every pixel independently to (76 R + 150 G + 30 B) / 256 rounded down; the RGBA form repeats it in R, G and B with opaque alpha, the single-channel form stores it once per pixel, and expanding one channel to RGBA and converting back is consistent. The contrast-stretching form sends the darkest and brightest 1/64 of pixels to 0 and 255 and scales the rest linearly between the remaining extremes, never reversing the order of brightness and leaving images unchanged whose remaining range has no contrast.",
 ["inputs"], IMG,
 "All 2^24 colours times all image sizes cannot be sampled by unit tests; percentile cut-offs depend on pixel counts.",
 ["src/conversion.c", "src/rgba_to_grayscale.c", "src/single_to_multichannel.c"], [("integer weights", "include/rgba_to_grayscale.h"), ("histogram percentile cut", "fcv_grayscale_stretch")],
 ["result buffers"], "All 2^24 colours enumerated in the thorough tier, sampled in quick; sort-based percentile reference.")

prop("C08", "Otsu thresholding separates the classes optimally",
 "Thresholding an image with Otsu's method outputs only opaque black or white; white exactly the pixels whose gray value exceeds one common threshold, and that threshold maximises the between-class variance of the image's gray histogram (images with a single gray value have no threshold to find and stay one colour). The smooth variant is a monotone ramp: 0 below threshold-16, 255 above threshold+16, linear in between, never wrapping around.",
 ["inputs"], IMG + " and every threshold value for the plain global threshold",
 "Optimality quantifies over all histograms; float accumulation and wrap-around only show for skewed or extreme histograms no test contains.",
 ["src/conversion.c"], [("between-class variance scan", "fcv_otsu_threshold_rgba"), ("double threshold ramp", "apply_double_threshold")],
 ["result buffer"], "Exact rational between-class variance oracle (tie-tolerant: any threshold whose partition is within relative 1e-5 of the optimum is accepted); ramp recovered for some near-optimal threshold.")

prop("C09", "Smart binarization is local-contrast Otsu and stays well-formed for any page",
 "Smart binarization equals Otsu thresholding of the mid-gray plus the difference between the grayscale image and its own blur (radius a tenth of the geometric mean of the side lengths), clamped to 0..255: hard mode yields only black and white, smooth mode yields gray ramps around the same threshold. The result is opaque and has the same size, for any image down to a single pixel.",
 ["inputs"], IMG, "Tests check one picture by eye; clamping and tiny or extremely elongated images are never sampled.",
 ["src/conversion.c"], [("high-pass + Otsu", "fcv_bw_smart")], ["result buffer"],
 "Composition oracle built from the library's public grayscale/blur/Otsu (each decided separately by C06-C08) and an independent high-pass; well-formedness predicate.")

prop("C10", "Edge detection is the normalised Sobel gradient magnitude",
 "Edge detection returns one byte per pixel: the gradient magnitude of the 3x3 Sobel operator of the grayscale image (beyond the border the nearest pixel repeats), scaled linearly per image so that the weakest gradient becomes 0 and the strongest 255. For 1, 3 and 4 channel inputs showing the same gray content the result is the same; constant images give 0, and mirroring, transposing or inverting the input only mirrors, transposes or leaves the result.",
 ["inputs"], "every 1, 3 or 4 channel image of any size", "Tests never check values, only that edges exist; channel handling and borders are input-dependent.",
 ["src/sobel_edge_detection.c"], [("3x3 kernels", "fcv_sobel_edge_detection")], ["result buffer"],
 "Integer-exact reference (tolerance only for sqrt rounding) over all three channel layouts, metamorphic symmetries.")

prop("C11", "Binary morphology is exact disk dilation, erosion, closing and opening",
 "Dilating a binary image turns white exactly the pixels with a white pixel within the disk of the given radius (distance at most radius + 0.5); eroding keeps white exactly the pixels whose whole disk is white, counting outside as black. Closing never removes white and opening never adds white, both are monotone and idempotent (the erosion inside closing repeats the border pixels instead of counting outside as black), radius 0 is the identity on binary images, and the output contains only 0 and 255.",
 ["inputs"], "every single-channel binary image, every radius from 0 to beyond the image size",
 "Tests use one tiny mask; disk shape, image borders and radii larger than the image are not sampled.",
 ["src/binary_closing_disk.c"], [("disk structuring element scan", "fcv_binary_*_disk")], ["result buffer"],
 "Brute-force set-theoretic reference for all four operations plus lattice laws.")

prop("C12", "Hex colours and colour-keyed binarization are exact",
 "A 6-digit hexadecimal colour, with or without '#', in any letter case, is parsed to exactly its three channel values; any other text is treated as white and never misread. Colour-keyed binarization returns one byte per pixel: 255 exactly for the pixels of the foreground colour and 0 for all others, independent of alpha.",
 ["inputs"], "every hex colour string and every RGBA image with every foreground/background pair", "Tests parse three colours and binarize one image.",
 ["src/parse_hex_color.c", "src/convert_to_binary.c"], [("hex digits", "fcv_parse_hex_color"), ("colour comparison", "fcv_convert_to_binary")],
 ["r,g,b outputs; result buffer"], "Reference parser over generated valid and malformed strings; colour-equality model.")

prop("C13", "Drawing paints exactly the shape, in the right colour, clipped to the image",
 "Drawing a disk (centre and radius truncated to whole pixels) sets every pixel inside the radius and none outside it (within half a pixel of rasterisation); drawing a circle sets only pixels within half a pixel of the ideal outline and leaves no gap in it, and a disk is exactly the circle of the same centre and radius, filled. All other bytes of the image are untouched, painted pixels get the exact colour (opaque in RGBA), shapes partly or wholly outside the image are clipped, and this holds for 1, 3 and 4 channels and any centre or radius.",
 ["inputs"], "every image with 1, 3 or 4 channels, every colour, radius and centre (inside, outside, fractional, negative)",
 "Tests only draw a circle in the middle of a picture; clipping and channel layouts are not sampled.",
 ["src/draw.c"], [("midpoint circle, clipped pixel writes", "fcv_draw_circle, fcv_draw_disk")], ["in-place modified image"],
 "Geometric validity predicate (two-sided with a one-pixel band), 8-connectivity/8-fold symmetry of the unclipped outline, clipping = crop of the unclipped drawing.")

prop("C14", "Histogram image shows the true channel distribution",
 "The histogram image is 256x200 opaque pixels; in every column the bar of each channel rises from the bottom to the height proportional to the number of pixels with that value, the most frequent value over all shown channels reaching full height. Alpha is ignored, pixel order is irrelevant, and gray images give white bars on black, colour images red, green and blue bars that add where they overlap.",
 ["inputs"], "every 1, 3 or 4 channel image, from one pixel to many megapixels", "Tests look at one tiny image; scaling overflow appears only for large counts.",
 ["src/histogram.c"], [("count, normalise, draw columns", "fcv_generate_histogram")], ["result buffer and reported size"],
 "Counting reference with one-row rounding tolerance; permutation invariance; megapixel uniform images for overflow.")

prop("C15", "Watershed assigns every pixel to a marker's basin",
 "Watershed segmentation colours every pixel either with the colour of a marker's basin or, if requested, as black boundary; every marker pixel keeps its own basin (of markers on one pixel the last wins), the first ten basins have distinct colours, every basin is connected to its marker, and a marker outside the image or not finite makes the call fail cleanly. Basins grow level by level, all at once one pixel layer at a time, so each pixel is reached over the lowest possible highest gray value, and boundary pixels occur only where different basins meet.",
 ["inputs"], "every grayscale image, every list of markers (inside, outside, fractional, duplicated, up to dozens), with and without boundaries",
 "Tests show two example pictures; plateaus, many markers and marker order are not sampled.",
 ["src/watershed_segmentation.c"], [("priority flooding", "fcv_watershed_segmentation")], ["result buffer"],
 "Tie-tolerant validity predicate (minimax path heights computed independently, connectivity, marker colours), never a single expected labelling.")

prop("C16", "Corner response and peaks are faithful and well separated",
 "The corner response image has one accuracy and one roundness value per pixel, zero where the operator's window would leave the image, and follows the Foerstner formulas of the Sobel-gradient structure tensor of the grayscale image, scaled per image to 0..255. Extracted peaks are distinct, lie inside the image, exceed both thresholds, are local maxima, and no two are closer than the minimum distance, while no qualifying isolated maximum is missed.",
 ["inputs"], "every image size (also smaller than the window), sigma, distance and thresholds", "Tests check one synthetic square.",
 ["src/foerstner_corner.c", "src/corner_peaks.c"], [("structure tensor", "fcv_foerstner_corner"), ("non-maximum suppression", "fcv_corner_peaks")], ["result buffers, peaks list"],
 "Floating-point reference with rounding tolerance, validity predicate for peaks (separation, threshold, maximality, completeness).")

prop("C17", "Perspective transforms map the four corners exactly and sample faithfully",
 "The computed transform maps each of the four given source corners onto the corresponding destination corner (for any non-degenerate convex quadrilaterals), is the identity for equal quadrilaterals, and degenerate input yields a usable identity fallback rather than garbage. Applying a matrix samples the input at the mapped position for every output pixel, pixels mapping outside stay transparent/empty, identity, translation, scaling and flip matrices (the plain half-turn matrix without offset is shifted into the image) give exactly the translated, scaled or flipped image, and neither the matrix nor the input image is altered.",
 ["inputs", "histories"], "all non-degenerate quadrilateral pairs, all matrices, all input/output sizes, and repeated use of one matrix", "Tests check two quadrilaterals and three matrices.",
 ["src/perspectivetransform.c"], [("8x8 linear solve", "fcv_calculate_perspective_transform"), ("inverse mapping with bilinear sampling", "fcv_apply_matrix_3x3")], ["matrix entries, result buffer"],
 "Back-substitution oracle for the corners (relative tolerance), double reference sampler, purity of arguments.")

prop("C18", "Corner detection always returns four sane, ordered corners",
 "For any image, document corner detection returns four finite corners inside the image, and never crashes or reads invalid memory however few or many corner candidates exist (too few: the corners of the whole image). For an image of a bright convex document on a dark ground it returns the document's corners, in top-left, top-right, bottom-right, bottom-left order, to within a few percent of the image size; in general it returns, of the candidates that the documented chain of steps yields, the four with the sharpest turns in clockwise order; ordering four arbitrary corners is a permutation of the input in that cyclic order, independent of the input order.",
 ["inputs"], IMG + "; all convex synthetic documents with margin; all permutations of corner lists",
 "The tests use 19 photographs; blank, tiny, noisy or nearly corner-free images are never tried.",
 ["src/corner_detection.c", "src/sort_corners.c"], [("watershed + Foerstner + ordering", "fcv_detect_corners"), ("ordering", "sort_corners")], ["returned corners, CLI JSON"],
 "Validity predicate on arbitrary images (ASan/UBSan), synthetic-document localisation, permutation metamorphic relation.")

prop("C19", "Document extraction yields the rectified document at the requested size",
 "Extracting a document returns an opaque-where-covered image of exactly the requested size (or, in automatic mode, of the reported size: the rounded longer side lengths of the detected document, at least 100x100), showing the detected quadrilateral rectified: the four image corners show the four detected corners. It equals applying the perspective transform of the detected corners, and any image is either processed or rejected cleanly.",
 ["inputs"], IMG + ", every requested output size", "Tests extract two photographs.",
 ["src/extract_document.c"], [("detect, compute transform, apply", "fcv_extract_document, fcv_extract_document_auto")], ["result buffer and size"],
 "Differential composition with the separately checked public detection/transform/sampling functions, synthetic coloured-quadrant documents.")

prop("C20", "EXIF orientation is read correctly from any file",
 "Reading the orientation of a file returns the orientation value 1..8 stored in its EXIF header, in either byte order and wherever the tag stands among other tags and segments. Any other content - missing, truncated, corrupt, out-of-range or non-JPEG, of any size - yields 1, without crash or hang.",
 ["inputs"], "every byte string as file content; every well-formed JPEG segment/IFD layout", "No unit test exists for it; only one sample photograph is used.",
 ["src/exif.c"], [("segment walk and IFD scan", "fcv_get_exif_orientation")], ["return value"],
 "Structured generator of JPEG/EXIF layouts with known answer, mutations/truncations, plus coverage-guided byte fuzzing against an independent parser.")

prop("C21", "A command-line pipeline equals the sequence of its single steps",
 "Running a pipeline produces exactly the image that results from applying its operations one after another, left to right, each with its own arguments, to the decoded input; so splitting a pipeline at any point into two runs over a lossless intermediate file gives the same final pixels. The reported operations and final dimensions match the written image, and the same command always gives the same bytes.",
 ["programs", "inputs"], "every pipeline over all operations with valid arguments, any length, on every image", "The CLI documentation tests run about a dozen fixed pipelines.",
 ["src/cli.c"], [("pipeline loop and buffer hand-over", "apply_operation / main")], ["output file, stderr dimensions, exit code"],
 "Grammar-generated pipelines; model = direct library calls in process plus split-run metamorphic relation through lossless PNG.")

prop("C22", "Command-line spelling does not change a pipeline's meaning",
 "A pipeline means the same whether given as one quoted argument or as separate arguments, with any white space around commas, any number of spaces between arguments, and with or without parentheses around an operation and its arguments. All arguments of an operation are honoured however many there are or however long they are.",
 ["programs", "configurations"], "every valid pipeline and every spelling of it", "Tests use two spellings of one pipeline.",
 ["src/cli.c"], [("argument joining and tokenising", "parse_pipeline in src/cli.c")], ["output file"],
 "Generated pipeline rendered in several random spellings; outputs must be identical; long argument lists included.")

prop("C23", "The command line fails cleanly and never leaves a wrong result",
 "Any invalid invocation - unknown operation, missing required argument, malformed crop geometry or position, out-of-range value, unreadable or corrupt input, no operations, too few arguments - ends with exit status 1 and an error or usage message, without creating the output file or touching an existing one. No arguments and no input file make the tool crash, hang or end in any other way, and exit status 0 is returned only when the output image was written completely: with the size the file claims to have (a result that the chosen format cannot represent is an error), and also when memory runs out anywhere, where the output is either the normal one or a clean error.",
 ["inputs", "programs", "fault_sequences"], "every argument vector, every input file content, unwritable outputs, results beyond the limits of the format, every failing allocation", "Tests contain a few error cases only.",
 ["src/cli.c"], [("validation and exit paths", "main, apply_operation in src/cli.c")], ["exit status, stderr, output file existence"],
 "Grammar-based generation of invalid and mutated invocations under ASan/UBSan; outcome predicate.")

prop("C24", "Image files are read and written without loss",
 "Writing PNG output preserves every pixel, including alpha, exactly, so a pipeline of net effect zero returns the input image; pixels of PNG inputs of any colour type (gray, palette, RGB, RGBA, 8 or 16 bit, any row filter) and of uncompressed formats are decoded to their standard RGBA values. JPEG output shows the same picture at the same size within normal compression error, the file type follows the output name, and JPEG inputs are turned upright according to their EXIF orientation before any operation.",
 ["inputs", "configurations"], "every image and supported input/output format", "Tests open a few sample pictures.",
 ["src/cli.c", "include/stb_image.h", "include/stb_image_write.h"], [("load to RGBA, orientation, write by extension", "main in src/cli.c")], ["output files decoded independently"],
 "Own PNG encoder (all colour types/filters, zlib) and decoder; round trips; JPEG via metamorphic comparisons.")

prop("C25", "No input makes the library touch invalid memory or crash",
 "Every public function either returns a valid result or cleanly returns no result for any arguments: null image pointers, zero, tiny, extremely elongated or overflow-provoking sizes, unsupported channel counts, negative, huge, infinite or not-a-number numbers. It never reads or writes outside the given buffers, never has undefined behaviour and never terminates the process.",
 ["inputs"], "all argument combinations of every public function with correctly sized buffers", "Sanitised builds exist in the makefile but tests feed only friendly input.",
 ["src/*.c"], [("argument validation at function entry", "all public functions")], ["ASan/UBSan reports, exit status, NULL results"],
 "API-wide argument fuzzing under ASan+UBSan with exactly-sized heap buffers, boundary-value dictionaries and a NULL-or-valid oracle.")

prop("C26", "Library calls are pure: inputs intact, results repeatable, no leaks",
 "No function that returns a new image changes its input buffers, matrices or point lists, and its result depends only on its arguments: not on earlier calls, on uninitialised memory, on buffer addresses or on calls running at the same time in other threads. After the caller frees the returned objects, nothing allocated by the call remains allocated.",
 ["histories", "schedules", "inputs"], "every sequence and concurrent combination of calls with any arguments", "Unit tests call each function once in a fresh state, single-threaded.",
 ["src/*.c"], [("fresh allocations, no shared mutable state", "all public functions")], ["argument buffers, repeated results, allocation balance"],
 "Random call histories replayed in different order/with poisoned heap/in parallel threads; allocation-balance via interposed allocator; argument snapshots.")

prop("C27", "The single-file distribution behaves identically to the modular sources",
 "The generated single-file header and implementation compile on their own and expose every public function, and each function returns exactly the same bytes as the modular build for the same arguments. Including the single header once or several times, from several files, works.",
 ["inputs", "programs"], "every public function and argument", "The amalgamation test calls one function.",
 ["makefile", "src/*.c", "include/*.h"], [("flatcv.c/flatcv.h rules", "makefile")], ["results of both builds"],
 "Differential fuzzing of the two builds loaded side by side in one process.")

prop("C28", "Haskell bindings compute the same as the C library",
 "Every Haskell binding returns exactly the value the corresponding C function returns for the same arguments, with the right size, and raises an error where the C function returns no result (the pointer-based variants return a null pointer). No binding reads beyond a C buffer, mutates the caller's immutable image, or frees memory it does not own; results stay valid while they are referenced, and the memory of a call (result included, also of a call that ends in an error) is released once they no longer are.",
 ["inputs", "histories"], "every binding with all valid and rejected arguments", "The Haskell tests check one tiny image per function, mostly only the size.",
 ["bindings/flatcv-hs/src/FlatCV.hs", "bindings/flatcv-hs/src/FlatCV/Raw.chs"], [("marshalling", "FlatCV.hs")], ["returned vectors"],
 "Generated calls sent to a Haskell driver process linked with the bindings and to the C library; byte-wise differential, driver run repeatedly in one process.")

prop("C29", "Running out of memory is reported, not fatal",
 "If any allocation fails during a library call, the call returns no result, reports failure or falls back to a documented default, without crashing, touching invalid memory or leaking what it had allocated, and a later call with enough memory succeeds with the normal result. A call that does report a result under such a failure reports the complete normal result.",
 ["fault_sequences", "inputs"], "every public allocating function and every single allocation of it failing, plus random patterns of failures", "No test can make an allocation fail.",
 ["src/*.c"], [("NULL checks and cleanup paths after every allocation", "all public functions")], ["result, crash reports, allocation balance"],
 "Interposed allocator fails the k-th allocation for every k of each generated call; outcome predicate.", level="fault_enumeration")

prop("C30", "Images larger than 4 GiB are processed like small ones",
 "The pixel rules of flips, rotations, crop, trim, border, resize, grayscale, contrast stretch, Otsu threshold, blur, binary conversion, morphology, histogram, global threshold, drawing, perspective transform, corner detection and corner peaks hold for every pixel of images whose byte size or pixel count exceeds 2^31 or 2^32: no index, counter or size wraps around, every pixel of the result is written, and nothing outside of the buffers is touched. If memory suffices the call succeeds; a call that has to refuse such an image returns without a result.",
 ["inputs"], "images of 2^30 and more RGBA pixels, 2^31 and more single- or two-channel pixels, in narrow, wide and square shapes", "Test images have a few megapixels; 32-bit products only wrap in images of several gigabytes.",
 ["src/*.c"], [("size_t index arithmetic", "all per-pixel loops")], ["result image"],
 "Sparse memory inputs with marked pixels at the wrap-around points against the pixel rule of each operation; large allocations end at inaccessible pages.")

CHECK = "python3 tools/check.py %s"
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
              quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
              anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                           observe_at=p["observe"], hook_needed=None))) + "\n")
    impl = os.path.join(ROOT, "src")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(impl, p["id"] + ".cpp")):
            checks.append(dict(property=p["id"], quick_cmd=CHECK % p["id"], thorough_cmd=(CHECK % p["id"]) + " --tier thorough",
              evidence_file="evidence/%s.json" % p["id"],
              technique=p["technique"] or "property-based testing: generated inputs against an explicit oracle, shrinking",
              level=p["level"], level_note=p["note"] + " Absence of violations holds for the generated cases only."))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
             notes="No hooks are needed: checks compile /repo's working tree with sanitizers into a temporary build directory.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
