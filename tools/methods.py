MISSED = {}
DROPPED = """
Considered and dropped: *files are closed after reading* - CPython's reference counting closes them, so nothing observable
could be stated; the open header of `load_mhd` was fixed in passing.
"""
METHODS = {}
METHODS["C01"] = """
Scenarios: every slice-wise metric x {2D, RGB, 3D} x {dim 0, 1, 2, none, outside} x {im_slice absent, symbolic integer, 0, non-integer}.  Every
comparison event (a call to a library kernel or repo function that takes data of both images) carries the terms of its operands.  Rules:
`slice` - the operand is plane `i` of axis `d` of the loaded image; `volume` - the comparison sits in an iteration over the extent of axis
`d` and its operand is the plane of the iteration variable, the result is the mean (sum divided by that same extent); `reject` - the outcome is
ValueError with no comparison event before; `ignore` - the operand is the whole image and a warning event precedes.  The plane index and the
extents are symbolic, so one argument covers all of them; tests try a handful."""
METHODS["C02"] = """
On every returning path of every `score()` the final value number of `score_val` equals the returned one and is classed numeric (never tuple, dict,
list or None); on every raising path `score_val` keeps the value number it had on entry.  Decided on the abstract store after each path."""
METHODS["C03"] = """
Origin sets: each operand's term is reduced to the input images it is built from.  Each comparison needs one operand of origin {reference} and one of
{modified}; mixed or equal origins are violations.  For kernels with documented roles (VIF, MAD) the position/keyword that is the
reference in the library's signature must have origin {reference}."""
METHODS["C04"] = """
Between the loading event and each comparison the operand term may only be built by indexing, axis permutation, dtype conversion, tensor
conversion and the repo's grayscale conversion; any arithmetic, clipping, filtering or a second call is reported, as are operands whose operator chains
differ between the two images.  The loading event must carry the metric's own data range, normalisation flag and region of interest."""
METHODS["C05"] = """
For each metric scenarios with one mismatch each (axis extent, dimensionality, dtype, non-RGB with chromatic) are run; facts make the mismatch definite.
No path may contain a comparison event or return; each must end in ValueError."""
METHODS["C06"] = """
Effect analysis with numpy aliasing: every array term carries the base whose memory it views (slicing, reshape, transpose, `asarray`/`astype(copy=False)` when
the dtype already fits, `np.array(copy=False)`).  A write event (item/augmented assignment, `out=`, in-place methods, `setattr` on a
caller's metric, list/dict mutators) whose base is a parameter of a public entry is a violation.  Entries: every public function and method taking images or
containers (about 90); dtype is left symbolic so that no-op conversions are covered."""
METHODS["C07"] = """
Constructors are run with the data range absent/present and normalize on/off: the required ValueError must be on every path.  In scoring, each kernel argument named
data range (table per library kernel and per repo function signature) must be the value number of the configured one, and the returned
term must contain it."""
METHODS["C08"] = """
Each documented option (from the docstring's parameter list and the signature) is passed as a fresh symbol; it must reach the argument of the same meaning of the kernel
unchanged in every image kind / slice mode, and the returned term must depend on it.  UQI's call of SSIM must carry K1 = K2 = 0, uniform window, unit exponents."""
METHODS["C09"] = """
Non-interference over histories: each call is analysed from the initial store and again from the store left by an earlier call with other symbols (also one that raised), on the same object
and on another one.  The outcome set of the second must be contained in that of the first: no symbol of the earlier call may occur in outcome or facts (module globals, class
attributes, mutable defaults, caches and instance attributes are all part of the store).  Sources of nondeterminism (`random`, `time`, `id`, `os.getpid`, `uuid`, set
iteration) reaching a result are reported."""
METHODS["C10"] = """
`BatchMetrics.calculate` is run on symbolic pair tables of one, two and three rows in every equality pattern of reference, modified image and ROI.  The result stored for pair k must be the value
number obtained for that row alone; reuse is accepted only where the equalities of the pattern imply it."""
METHODS["C11"] = """
Batch and multiple calculation over symbolic metrics of both types.  Result key/value pairs: the value must be the score term of the metric whose name is the key (suffix `_r`/`_m` for the
operand), called with that metric's parameters; preparation events (resize, crop) must occur exactly under the documented facts, with the requested order, before the score."""
METHODS["C13"] = """
`load_data` is run with constant file names of each extension, depth marker and ElementType (the finite tables of the statement) and with names outside of them; path/regex operations on
constants are folded.  Rule: the loader event and its dtype / path arguments, or ValueError with no open event."""
METHODS["C14"] = """
The data read is a symbolic flat file; the returned term is normalised to an index map (reshape order, transpose, axis reversal) and compared with element x + X*y + X*Y*z.
A size fact different from X*Y*Z must lead to ValueError on every path."""
METHODS["C19"] = """
All print_score methods with symbolic score (unset, 0, number, per-channel) and decimals: print and warning events per path, value printed = round/format of the recorded one, store unchanged."""
METHODS["C20"] = """
Constructors with every chromatic setting: names are constant strings, pairwise distinct; type tag by base class; every parameter's value number is the attribute's; score starts as None."""
METHODS["C22"] = """
The six dunder methods (as inherited by each metric) with symbolic scores against a metric / a number: the outcome term must be the same operator on (own score, other score)."""
METHODS["C23"] = """
calculate_statistics over symbolic pixels of every kind: the attribute's term must be the statistic of the whole array with the documented ddof/fisher settings; the histogram must be over the raveled
array; attributes must be set on the image and not on a temporary; describe's keys and CSV cells must carry the same value numbers."""
METHODS["C26"] = """
CSV writer events are replayed into rows: header cell k names the same result as data cell k in each row (writer order is a term; dict order = insertion order).  Metadata entries and report() likewise,
extension test before any open event."""
METHODS["C27"] = """
names/imports/signature/attributes: resolution over every module (symtable scopes, module exports, call binding against the definition's signature incl. `**kwargs` forwarding, class hierarchy members);
dynamic features (setattr, getattr, star imports, decorators) switch the rule off for the construct.  sound/complete: each constructor, score (all metrics x kinds x dtypes x options), helper function, print_score,
export_results and batch calculate is followed by the engine; a path that ends in an unset variable, unfit call, missing attribute/key is reported at the construct, and so is a case in which every path raises."""
METHODS["C28"] = """
The term of MAD.score (everything inlined, 20 paths per case) is cut at the two cropped maps.  `vision.py` evaluates a map at one generic pixel: meshgrid/arange/linspace become index atoms, fftshift/ifftshift permute them (and cancel),
masks, `where=` and boolean stores fork on canonical sign literals, complex grids are pairs, block maps / minstd / fft / convolve are atoms over *interned arrays* (two arrays get the same number iff they agree in every case).  The reference is the published model
written over the same atoms; equality is decided by rational normal form with exp/log/trigonometric atoms (addition theorems, parity, roots).  Cases: 8 settings x dtypes, 4 parities of the extents; 160 filter responses in quick.
Not compared: rounding, ties of comparisons, quadrant of an angle (only 4*theta and |angle| occur)."""
METHODS["C30"] = """
load_data x {array, tensor, file, ImageArray, unsupported} x normalize x roi: the returned term must be exactly crop(normalize(x)) with the flags' presence; ValueError outcomes as stated."""
METHODS["C31"] = """
crop_image with symbolic ranges; comparisons of range ends and extents are decided by `linear.py` in each order case.  The returned term's slices must be the stated ones; no raising path may
be feasible for inside ranges, every path must raise for over-long ones."""
METHODS["C32"] = """
The returned expression of normalize_data is brought to the form a*(x-b)+c with value numbers for the bounds and evaluated *algebraically* at the minimum and the maximum; dtype flow decides
where arithmetic happens in an integer type that can wrap (limits of numpy dtypes).  The finite dtype x range table decides result type, pass-through and ValueError."""
METHODS["C17"] = """
Scenarios: CNR and SNR x {2D, 3D, RGB} x every documented region type (and an unknown one) x centre inside / too close to the low or the high border of each axis /
wrong number of coordinates / non-integer, with symbolic extents, centre and radius under the linear facts of the case.  The returned term is put into a rational
normal form whose atoms are `mean`/`std` of array terms; each array term is resolved to a per-axis index interval `[c-r, c+r)` (linear forms must be
equal), a `<=`-ball mask whose squared distance is compared as a polynomial, or the whole image, and for RGB to the row of the YUV matrix or the channel index it comes
from.  Zero-std paths must return 0.  For a failing case no path may return.  Tests use centred regions in square images."""
METHODS["C18"] = """
The term of every returned score (all metrics x {2D, 3D, RGB} x slice modes x {uint8, int16, float64; thorough also uint16}) is walked; for every arithmetic operator,
numpy ufunc and ndimage filter over image data an exact element type (numpy's promotion rules) and a value interval (from the limits of the pixel type)
are computed.  `wrap` - an integer-typed result must fit its type; filters that return their input's type must not be given small integers; `truncate` -
explicit conversions to an integer type need the source interval to fit.  Library kernels (skimage, piq) are trusted to compute in floating point."""
METHODS["C12"] = """
`getstatistics` is interpreted on clang's syntax tree.  Its accumulation loops over one block are summarised as power sums `sum x^k` over an index box with symbolic corners; the stored terms are
put into a rational normal form over these sums (plus `sqrt`) and compared with the definition, separately on the constant-block branch (`value`).  Rule `place` compares the box of the sums and the
box of the stores with the block's own loop variables as linear forms, and the loop ranges with "every multiple of the stride from which a whole block fits".
`minstd` is claimed only for C15/C16: its minimum search starts at `u < iblocksize/2` without the block offset, which looks like a lost `i +` compared with the published MAD code, but the
repository documents no meaning for it, so neither reading is asserted."""
METHODS["C15"] = """
Every element access of every function in the extension's method table yields an obligation `0 <= index < size`; index and size are polynomials over extents, block size, stride and loop
variables, decided from the loop conditions and the calling convention `1 <= stride <= blocksize <= extent` by Fourier-Motzkin elimination (`bounds`).  Rule `layout`: memory obtained by `PyArray_DATA` or pointer arithmetic over
an input must come from an object known to be contiguous double (converted by `PyArray_FROM_OTF` & co. or checked by flags and type).  Rule `call`: the value-numbering engine shows the convention for every call site in `mad.py`."""
METHODS["C16"] = """
Typestate per allocated object (null / maybe-null / owned / released / handed over) along every path of the native functions, both outcomes of each allocation.  `release` - at every return each owned object has been
released or returned exactly once (`Py_BuildValue("N")` hands over, `PyTuple_Pack`/`"O"` do not); `alive` - no dereference of a maybe-null or released object; `error` - NULL is returned only with an exception set and nothing calls `exit`/`abort`."""
METHODS["C33"] = """
`algebra.py` turns the returned term into a rational normal form: filters (`uniform_filter`, `gaussian_filter`, `correlate`, `convolve`, skimage's mse/psnr) become atoms keyed by their argument's normal form and
their settings, sums/means over arrays become one canonical reduction, `sqrt`/`abs`/powers are reduced, crops are compared as index intervals.  `formula` - SSIM, UQI, GSM, RMSE, PSNR per image kind, window and exponent case against the
normal form built from the published formula; `appearance`, `detection` - MAD's two parts and their combination.  Tests fix one small image at default exponents.  Not compared: the contrast
sensitivity function and the visibility mask of MAD (constants of a model, no checkable law in the repository), GSM's gradients only up to choice of kernels (see C34)."""
METHODS["C24"] = """
The normal form of the score with the two image symbols exchanged must be the normal form of the score (`symmetric`).  GSM is excluded: it selects the strongest kernel of one image per tie.  MAD and VIF are not symmetric by definition."""
METHODS["C29"] = """
The second image symbol is replaced by the first in the score's term; the normal form must reduce to the constant (`perfect`): differences cancel, ratios of equal forms become 1, zero-MSE paths must return infinity.  VIF, FSIM and MS-SSIM are computed by
library code the engine keeps opaque, so no identity can be decided for them here."""
METHODS["C21"] = """
Every store inside two loops whose value is an element of a per-block statistic is an obligation.  `extract` - the list of blocks is a nested generation over two ranges of `img[slice, slice]`: start, stop and step
of each range and start and length of each slice are linear forms over extents, `B` and the stride `S`.  `place` - the storing loops must have the same two ranges in the same order, the target slice must start at the loop
positions with length `S`, and the counter must be a phi starting at 0 whose step is +1 per inner iteration (loop-carried values are recorded by the engine).  `native` - block size and stride of every native call."""
METHODS["C34"] = """
`consteval.py` folds kernel terms (literals, `rot90`, flips, transposes, slicing, item stores, arithmetic, `outer`, `stack`) to exact arrays.  `derivative` (sum 0, odd symmetry), `direction` (first moments per axis against the name),
`family` (weights, equal response, pairwise distinct up to sign), `used` (kernels in GSM's score term per image kind).  The three-axis kernels (xyz1-4) are only held to `derivative` and `family`: their
moments vanish along one axis each, no meaning is documented for them and they are reachable only with `experimental=True`."""
METHODS["C35"] = """
`shared` - on every path of every metric's score, `load_data`, normalisation, cropping and the image helpers: a write to a module variable, class or function attribute whose value number depends on the call's inputs and that is read again later on the
path.  Absence of such state makes calls on different objects independent in every interleaving.  `process` - calls of functions that change process-wide settings.  `native` - assignments to static or file-scope variables in the C source.
Not covered: two threads using the *same* metric object (its attributes are its documented state), pyplot, and the interactive widgets."""
METHODS["C36"] = """
The fusion is run on literal lists of n symbolic scored metrics and m symbolic weights, all n, m <= 4 (7): the result's polynomial normal form must be the weighted sum for n = m, and only ValueError may come out for n != m (`zip(strict=True)` is modelled)."""
METHODS["C37"] = """
The stored value per pixel must be `mean(|K' * pad(img)[window]|)`; window start and stop minus pad width minus pixel position must be -h and +h for kernel extent 2h+1 (linear forms, floor divisions resolved), K' the kernel or its full flip, the pad mode that of the table."""
METHODS["C25"] = """
The plotting functions are analysed for every region type, with and without export path, on symbolic centres, radius and images; `plt.subplots(r, c)` is modelled as a grid of named panels, so indexing, unpacking and loops over panels are followed. Each `imshow` argument is normalised (indexing, flips, rot90, transposes) to an index map image axis -> row/column; that map decides which coordinate every label, line, title and patch must carry (positions compared as linear forms). Bounds of visualize_3d are decided per ordering of the extents with linear forms. The callers are analysed with the plot functions as sinks. Drawing on panels or with patches that cannot be identified counts as undecided.
"""
METHODS["C38"] = """
`score`, `visualize`, `remember`, `missing` - score and visualize_centers are interpreted for every subset of given and stored centres and radius: the arguments reaching the computation or the plotting function must be the given or stored values themselves
(value numbers), the parameters dictionary afterwards must hold them, and with a value missing only ValueError may come out. Interactive part: set_centers is interpreted with an interactive session assumed; the controls passed to `interactive_output`, `observe`
and `on_click` are read off the path, and the registered closures are interpreted in turn on the resulting abstract state with symbolic slider positions - `slider` (start value, and the axis whose extent limits it, also after a radius change),
`shown` (arguments of the plot), `saved` (parameters after the save button), `region` (thresholds, iterations, region type and mask of the calculated region), `again` (set_centers on the state it left behind; no `None` as a start value).
Programming errors (unset variables, attributes of None, duplicate arguments, len(None)) on any of these paths are violations. The slider positions are symbols, so every position is covered.
The check found three defects, repaired in /repo (see KNOWN_FINDINGS.txt)."""
