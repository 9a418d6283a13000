# ---------------------------------------------------------------- scoring
prop("C01", "Slice selection follows dim and im_slice exactly",
     "For a 3D image, score(dim=d, im_slice=i) of every slice-wise full-reference metric compares exactly plane i of axis d of both images, and score(dim=d) "
     "alone compares every plane of axis d once and returns the average. A dim outside 0, 1, 2, a missing dim or a non-integer im_slice raises ValueError before "
     "anything is compared. For 2D and RGB images the whole image is compared and a given dim or im_slice (0 included) is ignored with a warning.",
     ["inputs", "configurations"], "every metric, axis, plane index, image kind and pixel type",
     "Tests call score() with one or two planes of small volumes and compare against stored values; they do not cover every axis/index/metric combination.",
     MET[:-1], [("score() of each metric", "src/viqa/fr_metrics/*.py"), ("volume wrappers", "src/viqa/fr_metrics/mad.py, gsm.py")],
     VN_NOTE + "The plane index is symbolic, so the argument covers all indices.")
prop("C02", "A metric records exactly the score it returns",
     "Whenever score() returns, the metric's recorded score is the value that was returned, and it is a number (for colour images possibly one number per channel), "
     "never bookkeeping data. Whenever score() raises, the previously recorded score is unchanged.",
     ["inputs", "histories"], "every metric, image kind, option setting and failing input",
     "Tests check the returned value for a few images and never the recorded one after a failed call.",
     MET + [BASE], [("assignment of score_val at the end of score()", "src/viqa/*/*.py")], VN_NOTE)
prop("C03", "Reference and modified image keep their roles",
     "Every comparison a full-reference metric performs uses one operand derived only from the first image and one derived only from the second. "
     "For comparisons that are not symmetric the first image acts as the reference and the second as the modified image; MAD takes its visibility threshold from the reference.",
     ["inputs", "configurations"], "every full-reference metric, image kind and slice mode",
     "Tests mostly use an image and a noisy copy; a swapped operand changes values slightly or not at all.",
     FR, [("kernel calls in score()", "src/viqa/fr_metrics/*.py"), ("detection threshold", "src/viqa/fr_metrics/mad.py")], VN_NOTE)
prop("C04", "Compared data are the loaded images, treated alike",
     "The pixel data a metric computes on are the images loaded with the metric's configured data range, normalization and region of interest. Between loading and "
     "computation an image is only sliced, re-ordered, type-converted or turned grayscale, never altered in content, and both images of a pair are treated the same way.",
     ["inputs", "configurations"], "every metric, image kind, pixel type and slice mode",
     "Tests use default settings on two images; a dropped ROI or an asymmetric conversion is visible only with particular settings.",
     MET + [LOAD, BASE], [("load_images of the base classes", BASE), ("conversions before the kernels", "src/viqa/fr_metrics/*.py")], VN_NOTE)
prop("C05", "Images that do not match are rejected, never compared",
     "A full-reference metric given two images that differ in extent along any axis, in dimensionality or in pixel type raises ValueError and compares nothing. "
     "The same holds for a chromatic metric given images that are not RGB.",
     ["inputs"], "every full-reference metric and every mismatching pair",
     "Tests try one mismatching pair for some metrics.",
     FR + [LOAD, BASE], [("pair check while loading", LOAD), ("chromatic check", BASE)], VN_NOTE)
prop("C06", "Images and option values passed in are never modified",
     "No scoring, loading, cropping, normalizing, visualising or export call changes the content of an image array passed by the caller. Arrays, lists and dictionaries "
     "passed as options, and metrics handed to an exporter, are left as they were too.",
     ["inputs", "histories"], "every public function taking an image, every pixel type (including those for which a conversion is a no-op) and image kind",
     "Tests never compare the inputs before and after a call, and in-place effects depend on the pixel type.",
     MET + [LOAD, MISC, "src/viqa/utils/visualization.py", "src/viqa/utils/export.py"],
     [("copies before in-place operations", "src/viqa/utils/*.py, src/viqa/*/*.py")],
     VN_NOTE + "Aliasing through numpy views is tracked; third-party kernels are assumed not to write into their arguments.")
prop("C07", "The configured data range is demanded and is the one used",
     "Constructing a metric whose result depends on the data range without giving one raises ValueError, as does asking for normalization without a data range. "
     "Every comparison that takes a data range receives the configured one, and the results of SSIM, UQI, GSM and MAD (integer images) depend on it.",
     ["inputs", "configurations"], "every metric, data range and image kind",
     "Tests use one data range (255 or 1) per metric.",
     FR + [BASE], [("constructors", "src/viqa/fr_metrics/*.py"), ("data_range arguments of the kernel calls", "src/viqa/fr_metrics/*.py")], VN_NOTE)
prop("C08", "Every option passed to score takes effect",
     "A documented option given to score() arrives unchanged at the computation it configures for 2D images, for RGB images and for single slices and whole volumes of 3D images, "
     "and it influences the result. UQI is SSIM without stabilising constants (K1 = K2 = 0), with a uniform window and unit exponents.",
     ["inputs", "configurations"], "every documented option, value and image kind",
     "Tests leave nearly all options at their default.",
     FR, [("keyword forwarding in score()", "src/viqa/fr_metrics/*.py")], VN_NOTE)
prop("C19", "print_score prints the recorded score or warns",
     "Before any score has been computed print_score issues a RuntimeWarning, prints no value and does not raise. Afterwards, for every value including 0, it prints the recorded score rounded to "
     "the requested number of decimals without a warning, and never changes the metric.",
     ["inputs", "histories"], "every metric, score value and number of decimals",
     "Tests print one score of some metrics; a zero score or an unscored metric is rarely tried.",
     MET, [("print_score", "src/viqa/*/*.py")], VN_NOTE)
prop("C20", "Every metric identifies its results unambiguously",
     "Every constructed metric has a textual name under which its results are exported, distinct from the names of all other metrics (the colour variants of FSIM, PSNR and RMSE included), and is typed full-reference or "
     "no-reference correctly. Its settings (data range, normalization, region of interest, chromatic) are stored as given and it starts without a score.",
     ["configurations"], "every metric class and constructor setting",
     "Tests construct a few metrics with default settings.",
     MET + [BASE], [("constructors", "src/viqa/*/*.py")], VN_NOTE)
prop("C22", "Comparing metrics compares their scores",
     "Each of ==, !=, <, <=, > and >= between two metrics, or a metric and a plain number, gives the result of the same operator applied to the recorded scores, with the left operand on the left.",
     ["inputs"], "every operator, every pair of scores",
     "Tests cover a couple of operators on one pair of values.",
     [BASE], [("comparison methods of the metric base class", BASE)], VN_NOTE)
VIS = "src/viqa/utils/visualization.py"
MU = "src/viqa/multiple.py"
EXP = "src/viqa/utils/export.py"
# ---------------------------------------------------------------- several metrics, several pairs
prop("C09", "A result depends only on its inputs, not on earlier calls",
     "Every outcome (score or raised error) of scoring, loading, cropping, normalizing or of calculate() after any earlier call on the same or another object - with other images, image kinds or options, and "
     "also after one that failed - is an outcome of the same call made first. No random number, clock, process id or object identity enters a result.",
     ["histories", "inputs"], "every sequence of two calls over all metrics, image kinds and option settings",
     "Tests use a fresh metric per call and the same small images, so leftovers of an earlier call are never visible.",
     MET + [LOAD, MISC, MU], [("module variables of MAD", "src/viqa/fr_metrics/mad.py"), ("metric attributes", "src/viqa/*/*.py"), ("batch state", MU)],
     VN_NOTE + "The second call is analysed in the state the first one leaves (module variables, default arguments, object attributes) and compared with the call in the initial state.")
prop("C10", "A pair's batch result does not depend on the other pairs",
     "In BatchMetrics.calculate the results of each pair are those the pair would get in a batch of its own, whichever images, pairs and regions of interest come before it. "
     "Reusing earlier results is allowed only where the images and regions of interest make them equal, and every pair gets a result of its own.",
     ["histories", "inputs"], "every sequence of up to three (thorough: four) pairs with any images and regions in common, with no, one or per-pair regions of interest",
     "The reuse logic depends on which consecutive pairs share which image; the tests have no batch with shared images.",
     [MU], [("reuse of loaded images and previous results", MU)],
     VN_NOTE + "File names, regions and shapes are symbols; each pattern of equalities is one path. Longer sequences are covered as far as the code looks back one pair only.")
prop("C11", "Multi-metric results belong to the right metric and image",
     "In the results of BatchMetrics and MultipleMetrics each name holds the score of the metric of that name, computed with that metric's own parameters: a full-reference metric of (reference, modified), "
     "name_r of the reference and name_m of the modified image. Both images are cropped to the region of interest exactly when one is given, and a modified image of another size is resized to the reference with the requested order before cropping.",
     ["inputs", "configurations"], "every metric list, parameter list, region of interest and interpolation order",
     "Tests evaluate no metric list in which parameters or images could be confused.",
     [MU, LOAD], [("calculation of one pair", MU)], VN_NOTE)
prop("C25", "Plots show the regions and slices of the coordinates given",
     "The CNR and SNR plots show, for the background and the signal centre given, the image unmirrored with its axes labelled and mark exactly the region that is scored (cube centre +- radius, ball, nothing for the whole image); in 3D each panel is the slice through the centre along one axis with lines at the other two coordinates. "
     "visualize_3d shows the three slices at the coordinates given and raises ValueError for coordinates outside the image. "
     "A plot is saved to the export path before it is shown, and visualize_centers and ImageArray.visualize plot what they were given or what is stored on the metric.",
     ["inputs", "configurations"], "every image extent and content, centre, radius, region type and export path",
     "No test draws a plot; a mirrored image or a region on the wrong axis looks plausible.",
     [VIS, "src/viqa/nr_metrics/cnr.py", "src/viqa/nr_metrics/snr.py"], [("region and slice plots", VIS), ("visualize_centers", "src/viqa/nr_metrics/*.py"), ("ImageArray.visualize", "src/viqa/utils/loading.py")],
     VN_NOTE + "Negative slice indices, set_centers' widgets, colours and layout are not claimed.")
prop("C26", "Result files and printouts hold each value under its own name",
     "Every row of an exported result file holds, under each column heading, the value of that column for one pair or metric, and the metadata file lists each metric with its own data range and parameters. "
     "A wrong file extension raises ValueError before any file is opened, and report() writes exactly the requested parts into the given directory.",
     ["inputs", "configurations"], "every result dictionary, metric list, file name and combination of report switches",
     "Tests never read back an exported file.",
     [MU, EXP], [("csv writers", MU + ", " + EXP), ("metadata", EXP)], VN_NOTE)
prop("C27", "Valid calls run to completion without programming errors",
     "Creating a metric with a valid data range, scoring any supported pair of images with documented options, the documented helper functions, exporting and printing a score and calculating a batch all return a result: "
     "no branch reads a variable that was never set, a missing attribute, key or import, or calls a function with arguments it does not take. Documented rejections of invalid arguments remain.",
     ["inputs", "configurations"], "every function of the package; every metric, image kind, pixel type and documented option",
     "A misspelt keyword or unset variable in a branch no test enters goes unnoticed until a user needs that option.",
     MET + [LOAD, MISC, MU, EXP, VIS], [("the whole package", "src/viqa")],
     VN_NOTE + "Calls of other packages' functions are not checked against their signatures.")
prop("C28", "MAD's vision model is the published one",
     "MAD's detection map is, at every pixel, visibility times the local mean squared error: luminance b + k*L^(gamma/3), the contrast sensitivity function with the given or default settings, and contrast masking with thresholds -5 over the block statistics. "
     "Its appearance map uses the absolute responses of log-Gabor filters with wavelengths 3*3^s, bandwidth 0.55 and orientations o*pi/n. "
     "Both maps are cropped by the block size, and blocks advance by block_size - int(block_overlap*block_size).",
     ["inputs", "configurations"], "every image content and extent (even and odd), pixel type, display, luminance, csf and block setting",
     "Tests compare two MAD values at default settings; a wrong constant changes scores only slightly.",
     ["src/viqa/fr_metrics/" + "mad.py", MISC], [("_high_quality, _low_quality, _pixel_to_lightness, _contrast_sensitivity_function", "src/viqa/fr_metrics/" + "mad.py"), ("gabor_convolve", MISC)],
     VN_NOTE + "Each map is expressed at a generic pixel (index atoms, permuted by fftshift; whole-image operations are interned by the value of their argument at every pixel) and compared in rational normal form "
     "with the published model in every case of the model's decisions; unknown operations count as undecided and are not reported.")
# ---------------------------------------------------------------- loading
prop("C13", "Files are read in the format and pixel type they declare",
     "load_data reads .raw and .mhd as binary volumes, .nii and .nii.gz as NIfTI and .png, .jpg, .jpeg, .bmp and .tiff as images from the given path, and raises ValueError for any other extension without opening the file. "
     "The pixel type of a RAW file is the one declared in its name (8/16/32bit, 8/16/32ubit, 16/32/64fbit) and of an MHD file its ElementType, whose data lie in ElementDataFile next to the header; a name without three extents or bit depth, or an unsupported type, raises ValueError.",
     ["inputs"], "every file name and header",
     "No test loads a file from disk in any but one format.",
     [LOAD], [("_load_data_from_disk, load_mhd, load_raw, _parse_bitdepth", LOAD)],
     VN_NOTE + "Header values are symbols; pattern matching on the name is folded for one name per declared type, position and defect.")
prop("C14", "Volumes are loaded with every voxel at its place",
     "A volume read from a RAW or MHD data file has the declared shape (X, Y, Z), and its voxel (x, y, z) is element x + X*y + X*Y*z of the file: no axis is swapped, mirrored or cut. "
     "A data file with more or fewer than X*Y*Z elements raises ValueError.",
     ["inputs"], "every extent and pixel type",
     "No test checks the orientation of a loaded volume with three different extents.",
     [LOAD], [("_load_binary", LOAD)], VN_NOTE)
prop("C23", "Image statistics describe the whole image under their own names",
     "ImageArray.calculate_statistics stores on the image, under each attribute, that statistic over all of its pixels (population variance and standard deviation, Fisher kurtosis, histogram of every pixel), for every image kind and pixel type. "
     "describe returns every statistic under its own name and writes exactly those values to the given CSV file.",
     ["inputs"], "every image kind and pixel type",
     "Tests do not compute statistics of integer volumes or read an exported description.",
     [LOAD], [("ImageArray", LOAD)], VN_NOTE)
prop("C30", "load_data normalizes and crops exactly as asked",
     "For an array, a tensor or a file, load_data returns the given pixels, normalized to (0, data_range) exactly when normalize is set and afterwards cropped to roi exactly when one is given; nothing else happens to the pixels. "
     "Normalization without a data range, an image that is neither 2D nor 3D, or an unsupported input type raises ValueError.",
     ["inputs", "configurations"], "every image kind, source and combination of options (positive data ranges)",
     "Tests combine normalization, cropping and loading from disk only in part.",
     [LOAD], [("load_data", LOAD)], VN_NOTE)
prop("C31", "Cropping returns exactly the requested region",
     "For ranges inside the image crop_image returns img[x0:x1, y0:y1] of a 2D or RGB image (all channels kept) and img[x0:x1, y0:y1, z0:z1] of a volume, without error, also when a range spans a whole axis. "
     "A range longer than its axis, or a volume without z range, raises ValueError.",
     ["inputs"], "every image kind and all ranges 0 <= lo < hi <= extent, by cases over linear relations of borders and extents",
     "Tests crop one region of one image.",
     [LOAD], [("crop_image", LOAD)], VN_NOTE)
prop("C32", "Normalization maps the darkest and brightest pixel to the range ends",
     "normalize_data maps the minimum of a non-constant image (or the given lower input bound) exactly to the lower and the maximum (or upper bound) exactly to the upper end of the output range, for every integer and float pixel type and without integer wrap-around. "
     "The result is uint8 for (0, 255), uint16 for (0, 65535) and float32 for (0, 1); an image is returned as it is exactly when its pixel type already spans the requested range, and any other output range or pixel type raises ValueError.",
     ["inputs"], "every pixel type and supported range; exactness by floating-point identities that hold for all values",
     "Rounding and wrap-around appear only for particular pixel values and types.",
     [LOAD], [("normalize_data", LOAD)], VN_NOTE + "A formula outside the exact identities (x-x=0, 0/x=0, x/x=1, 1*x=x, x+0=x) is reported because it rounds for some images.")
# ---------------------------------------------------------------- no-reference metrics
prop("C17", "CNR and SNR follow their definition on exactly the requested region",
     "For given centres and radius (auto_center off), CNR is (mean(signal) - mean(background)) / std(background) and SNR is mean / std of the signal region, with population statistics, and 0 where that std is 0; a region is exactly the pixels p with c-r <= p < c+r along every axis (cubic, cube, square), those within Euclidean distance r of c (spherical, sphere, circle), or the whole image (full, original). "
     "SNR of an RGB image gives mean(Y) over the std of Y, U and V of the documented YUV transform, or with yuv=False the luminance SNR followed by mean/std of R, G and B. "
     "A centre (given by non-negative integers) closer than the radius to a border, a number of coordinates that does not fit the image, a non-integer coordinate or radius, a radius below 1 or an unknown region type raises an error.",
     ["inputs", "configurations"], "every image kind, extent, centre, radius and region type",
     "Tests use a handful of centres in the middle of square images, where swapped axes, cut regions and wrong channels are invisible.",
     ["src/viqa/nr_metrics/cnr.py", "src/viqa/nr_metrics/snr.py", MISC], [("region extraction", MISC), ("contrast_to_noise_ratio, signal_to_noise_ratio", "src/viqa/nr_metrics/*.py")],
     VN_NOTE + "Centres, radius and extents are symbols; index ranges are compared as linear forms and the statistics as rational normal forms.")
prop("C18", "Integer images are scored without wrap-around or truncation",
     "No score is computed with image data in an integer type too small for the result: sums, differences, products, powers and filter responses of integer images never wrap around, and image data are never converted to an integer type that cannot hold them. "
     "A pair of integer images therefore gets, up to rounding, the score of the same pixel values stored as floating-point numbers.",
     ["inputs"], "every metric, image kind, slice mode and pixel type",
     "Tests use float images or integer images so similar that nothing wraps around.",
     MET, [("conversion before computing", "src/viqa/fr_metrics/*.py, src/viqa/utils/misc.py")],
     VN_NOTE + "Element types follow numpy's promotion rules; intervals start from the limits of the pixel type.")
# ---------------------------------------------------------------- native code
C = "src/viqa/fr_metrics/stat_utils/statisticsmodule.c"
C_NOTE = ("Static: the C source is parsed by clang and followed by an abstract interpreter (index polynomials decided by Fourier-Motzkin elimination, ownership and null "
          "states, loop summaries); nothing is compiled into or run. Assumes the documented reference counting of the CPython and numpy C API. ")
prop("C12", "MAD's native block statistics follow their definition",
     "getstatistics returns for every block the standard deviation with n-1, the skewness and the (non-excess) kurtosis from population moments, skewness and kurtosis being 0 for a constant block, in this order. "
     "The value of the block that starts at row i and column j is computed over rows i to i+blocksize-1 and columns j to j+blocksize-1 and stored in rows i to i+stride-1, columns j to j+stride-1; "
     "the blocks start at every multiple of the stride from which a whole block fits.",
     ["inputs", "configurations"], "every image content, extent, block size and stride (1 <= stride <= block size <= extent)",
     "Tests compare one MAD value of square images; a swapped axis, a wrong moment or a block out of place hardly shows in it.",
     [C], [("getstatistics", C)], C_NOTE + "Power sums of a block are atoms of a rational normal form, so the formula is compared for all pixel values.")
prop("C15", "MAD's native code never reads or writes outside its arrays",
     "For every image extent and every block size and stride with 1 <= stride <= block size <= extent, the C extension behind MAD accesses only elements of its input, result and scratch arrays, also for images that are not square. "
     "It addresses image memory as contiguous doubles only after making sure that the array is stored that way, and MAD itself never calls it with other block sizes and strides.",
     ["inputs", "configurations"], "every extent, memory layout, element type, block size and stride",
     "Out-of-bounds accesses depend on the aspect ratio and often stay unnoticed; tests use square float images.",
     [C, "src/viqa/fr_metrics/mad.py"], [("minstd, getstatistics", C), ("calls of statisticscalc", "src/viqa/fr_metrics/mad.py")], C_NOTE)
prop("C16", "MAD's native code releases what it allocates and survives failed allocations",
     "Every call of the C extension behind MAD leaves no array, reference or memory block behind other than its result, on success as on every failing path, and releases nothing twice. "
     "A failed allocation or an unsuitable argument raises a Python exception; it neither ends the process nor dereferences NULL.",
     ["inputs", "crash_points"], "every path through the native functions, each allocation failing or not",
     "A leak or an unchecked allocation shows only after many calls or when memory is short.",
     [C], [("allocation and release in minstd, getstatistics", C)], C_NOTE)
# ---------------------------------------------------------------- full-reference formulas
FRM = "src/viqa/fr_metrics/"
ALG_NOTE = ("Static: the value-numbering dataflow engine yields the returned expression over symbolic pixels; it is brought to a rational normal form over interned atoms and compared "
            "with the normal form of the published formula, so equality is for all images, extents and settings (real arithmetic; rounding is not compared). ")
prop("C33", "SSIM, UQI, GSM, RMSE, PSNR and MAD follow their published formula",
     "SSIM is the mean, over the image without a border of (win_size-1)//2, of luminance^alpha * contrast^beta * structure^gamma with C1=(K1*D)^2, C2=(K2*D)^2, C3=C2/2 over local statistics (sample-normalised except for the default Gaussian window); UQI is the same with K1=K2=0 and a uniform window; RMSE = sqrt(MSE); PSNR = 10*log10(D^2/MSE). "
     "GSM is the mean of (1-p*g)*g + p*g*l with g = (2(1-R)+K)/(1+(1-R)^2+K), both gradients being the strongest response over the same kernels. "
     "MAD is detect^a * appear^(1-a) with a = 1/(1+beta1*detect^beta2); its appearance part weights |d std| + 2|d skewness| + |d kurtosis| over the scales with weights that sum to 1, and its detection part is 200 times the RMS of visibility times local squared difference.",
     ["inputs", "configurations"], "every image content, extent, image kind, exponent, constant, window and data range",
     "Tests compare a few values at default settings, mostly of 2D images; terms that vanish there (exponents, constants, three-dimensional windows) stay unchecked.",
     [FRM + x for x in ("ssim.py", "uqi.py", "gsm.py", "rmse.py", "psnr.py", "mad.py")],
     [("structural_similarity, gradient_similarity, most_apparent_distortion", FRM + "*.py")], ALG_NOTE)
prop("C24", "Swapping the two images does not change SSIM, UQI, RMSE and PSNR",
     "For grayscale images and volumes SSIM, UQI, RMSE and PSNR are symmetric: score(a, b) equals score(b, a), for every content and every setting of windows, constants, exponents and data range.",
     ["inputs", "configurations"], "every pair of 2D or 3D images and every parameter value",
     "Tests always pass the reference first.",
     [FRM + x for x in ("ssim.py", "uqi.py", "rmse.py", "psnr.py")], [("SSIM.score, UQI.score, RMSE.score, PSNR.score", FRM + "*.py")], ALG_NOTE)
prop("C29", "An image compared with itself gets the perfect score",
     "Scoring an image against an equal copy gives 1 for SSIM, UQI and GSM (up to rounding, where the score is defined), 0 for RMSE and MAD, and infinity for PSNR, whatever the content of the image and the settings of the metric.",
     ["inputs", "configurations"], "every 2D or 3D image and every parameter value",
     "Tests compare identical images for single images at default settings.",
     [FRM + x for x in ("ssim.py", "uqi.py", "gsm.py", "rmse.py", "psnr.py", "mad.py")], [("score of each metric", FRM + "*.py")], ALG_NOTE)
# ---------------------------------------------------------------- MAD blocks, kernels, threads, helpers
prop("C21", "MAD's block values belong to the pixels of their block",
     "MAD takes the blocks img[i:i+B, j:j+B] for every multiple i, j of the stride from which a whole block fits; the local mean of the reference and the local error deviation computed over the block that starts at (i, j) are stored at [i:i+S, j:j+S] of their maps. "
     "The native block statistics are computed with the same block size and stride.",
     ["inputs", "configurations"], "every image extent, slice mode, block size and overlap",
     "Misplaced block values still give plausible scores, and square test images hide exchanged axes.",
     [FRM + "mad.py", MISC], [("block loop of _high_quality", FRM + "mad.py"), ("_extract_blocks", MISC)],
     VN_NOTE + "Index ranges are compared as linear forms over extents, block size and stride; other ways of writing the block loop count as undecided and are not reported.")
KER = "src/viqa/kernels.py"
prop("C34", "Gradient kernels respond to the direction in their name",
     "Every gradient kernel of viqa.kernels ignores constant images and changes sign under point reflection; a kernel for one or two axes responds to ramps along the axes in its name only and to both equally strongly (3D: x, y, z are axes 0, 1, 2; 2D: x runs along a row, y along a column). "
     "Kernels of one family and dimensionality weigh equally, respond equally strongly and are distinct up to sign. "
     "GSM filters images and slices with all 2D and volumes with all 3D kernels of its family and no others.",
     ["inputs", "configurations"], "every kernel and, by linearity of the responses, every image",
     "No test looks at a kernel; a score computed with a wrong one still lies between 0 and 1.",
     [KER, FRM + "gsm.py"], [("kernel functions", KER), ("KERNELS_2D, KERNELS_3D", FRM + "gsm.py")],
     "Static: kernel functions are followed by the value-numbering engine and their terms of literals, rotations, flips and arithmetic are constant-folded exactly; sums and first moments are then compared. ")
prop("C35", "Metrics can be scored in several threads at the same time",
     "Scoring different metric objects concurrently gives the same results as scoring them one after another: nothing behind score(), load_data and the image helpers keeps values that depend on its arguments in module variables, class or function attributes that it reads again, nor changes process-wide settings such as the working directory, the random seed or warning filters. "
     "MAD's C extension keeps no variable that outlives a call.",
     ["schedules"], "every interleaving of calls on different objects (argued from the absence of shared state), interactive visualisation excluded",
     "Tests run one score at a time.",
     MET + [LOAD, MISC], [("module variables", "src/viqa/fr_metrics/mad.py"), ("static variables", C)],
     VN_NOTE + "Effects of numpy, scipy, piq and scikit-image calls on shared state are trusted to be those documented.")
prop("C36", "Fused scores are the weighted sum of the metrics' scores",
     "fuse_metrics_linear_combination returns score_1*weight_1 + ... + score_n*weight_n for n metrics and n weights, in the given order, and leaves metrics and scores as they are. Different numbers of metrics and weights raise ValueError.",
     ["inputs"], "every score and weight; up to 4 (thorough: 7) metrics and weights of any two numbers",
     "The function has no test.",
     ["src/viqa/fusion.py"], [("fuse_metrics_linear_combination", "src/viqa/fusion.py")], ALG_NOTE)
prop("C37", "correlate_convolve_abs filters the neighbourhood of each pixel",
     "For a kernel of extent 2h+1 along every axis correlate_convolve_abs returns at pixel p the mean of |kernel * image| over p-h ... p+h along every axis of a 2D or 3D image, with the kernel flipped along all axes exactly for mode 'convolve'. "
     "Beyond the border the image is continued as numpy.pad does for the border mode (nearest: edge, mirror: symmetric, constant: the given value); any other border mode raises ValueError.",
     ["inputs", "configurations"], "every image extent and content, odd kernel extent, mode and border mode",
     "The function has no test; a shifted result looks like a filtered image.",
     [MISC], [("correlate_convolve_abs", MISC)], VN_NOTE + "Window bounds are compared as linear forms; implementations without the explicit pixel loop count as undecided.")
prop("C38", "CNR and SNR use and save exactly the region chosen",
     "score and visualize_centers of CNR and SNR work on the centres and radius given, or on those stored in the metric's parameters when none are given, and raise ValueError before computing anything if one is neither given nor stored; score stores those it used. "
     "The interactive set_centers starts its sliders at the given, stored or default values of their own axis, shows the region its sliders say and saves exactly the centre, radius and region type shown. "
     "It can be opened again with whatever was saved.",
     ["inputs", "configurations", "histories"], "every image kind, every combination of given and stored values, every slider position, region type and button, one selection open at a time",
     "No test calls set_centers or relies on stored parameters; a slider mixed up saves another region than the one on the screen.",
     ["src/viqa/nr_metrics/cnr.py", "src/viqa/nr_metrics/snr.py"], [("score, visualize_centers, set_centers and its callbacks", "src/viqa/nr_metrics/cnr.py, snr.py")],
     VN_NOTE + "Values given only in part while others are stored may come from either source (the documentation is silent). Two selections open at the same time share module variables and are not covered.")
