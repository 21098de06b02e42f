#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P=[]
ND=["src/multilinear/regular.rs","src/multilinear/rectilinear.rs","src/multilinear/regular_recursive.rs","src/multilinear/rectilinear_recursive.rs","src/multicubic/regular.rs","src/multicubic/rectilinear.rs","src/multicubic/regular_recursive.rs","src/multicubic/rectilinear_recursive.rs","src/nearest/regular.rs","src/nearest/rectilinear.rs"]
D1=["src/one_dim/mod.rs","src/one_dim/linear.rs","src/one_dim/hold.rs"]
ML=ND[:4]; MC=ND[4:8]+["src/multicubic/mod.rs"]; NN=ND[8:]
PYW=["src/interpn/multilinear_regular.py","src/interpn/multilinear_rectilinear.py","src/interpn/multicubic_regular.py","src/interpn/multicubic_rectilinear.py","src/interpn/nearest_regular.py","src/interpn/nearest_rectilinear.py"]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Rust entry points never panic",
 "Every public Rust interpolation entry point (constructors, batch and single-point evaluation, the interpn convenience functions, the bounds checks and the 1-D grids and interpolators) returns Ok or Err and never panics, for every combination of argument lengths, grid sizes and floating-point values, including empty slices, NaN, infinities and the extremes of the integer range. This covers out-of-range indexing, integer overflow (the release profile keeps overflow checks on), failed conversions and unwraps.",
 ["inputs"],"all slice lengths, all dims values, all float bit patterns, every supported dimension count, f64 and f32",
 "Unit tests use well-formed grids of one size; a panic needs a particular length mismatch, an empty slice, a degenerate dim or a huge/NaN coordinate, of which none is tried.",
 ND+D1+["src/lib.rs"],[("length and degeneracy checks in constructors and interpn","src/*/{regular,rectilinear}*.rs new()/interpn()"),("index clamping in get_loc","src/*/{regular,rectilinear}*.rs get_loc()"),("checked float-to-int conversion","<isize as NumCast>::from(..).ok_or(..)"),("flattened C-order indexing","src/lib.rs index_arr, index_arr_fixed_dims")],
 ["return value or unwinding of each public function"])
p("C02","Grids are accepted exactly when they are well formed",
 "Constructing an N-D interpolator (directly or through interpn) succeeds if and only if every dimension has enough points (2 for linear and nearest, 4 for cubic), the value array has exactly as many elements as the product of the dimension sizes, the per-dimension arrays agree in count with the number of dimensions, and every step is strictly positive (regular) or every grid's second coordinate exceeds its first (rectilinear), NaN counting as not satisfying either; anything else is an Err. A 1-D rectilinear grid is accepted if and only if it has at least two coordinates and as many values.",
 ["inputs"],"all dims, steps, starts, grids and value array lengths, NaN included, every dimension count",
 "Existing tests construct only valid interpolators; no test supplies a wrong product, a short grid on a later axis, a zero, negative or NaN step.",
 ND+["src/one_dim/mod.rs"],[("constructor checks","new() of each interpolator struct"),("RectilinearGrid1D::new length check","src/one_dim/mod.rs")])
p("C03","Mismatched batches are rejected before any output is written",
 "Batch evaluation fails with Err, and leaves the whole output slice unmodified, unless there is one coordinate slice per dimension and every coordinate slice has exactly the output's length; a batch meeting that (on a valid grid with representable coordinates) succeeds. The same holds for the 1-D batch evaluation and for the number-of-dimensions agreement of the bounds checks.",
 ["inputs"],"all coordinate-slice counts and lengths and output lengths",
 "Tests never pass mismatched lengths, and never look at the output after an error.",
 ND+D1,[("size check ahead of the evaluation loop","interp() of each interpolator struct; Interp1D::eval")],["out slice contents after Err"])
p("C04","Batch evaluation is pointwise and writes every element",
 "On success, batch evaluation has written every output element, and element i equals what single-point evaluation gives for the i-th coordinates: it does not depend on any other point, on the order or number of points, or on what the output held before. The allocating variants return exactly what the in-place variants write.",
 ["inputs","histories"],"all batch sizes and contents, all previous contents of the output buffer",
 "Tests pass a zeroed output and compare to a tolerance; state leaking between points (a scratch buffer carried over, a skipped element) needs a particular sequence of points.",
 ND+D1,[("per-point gather and interp_one","interp() of each interpolator struct; Interp1D::eval"),("interpn_alloc, eval_alloc","all modules")])
p("C05","Values are C-ordered and each point uses only its own cell",
 "The result at a point is a function of the grid values at the corners of the one (clamped) cell the point falls in - 2^N values for linear, the surrounding 4^N for cubic, exactly one for nearest - where the value at multi-index (i1,..,iN) is read at the C-order (last axis fastest) offset of the value array. No other grid value affects it, in any number of dimensions.",
 ["inputs"],"all grids and points, dimension counts 1 to 8, all dimension sizes (not only equal ones)",
 "Tests use a few small grids; a wrong stride or footprint only shows for unequal dimension sizes in particular cells.",
 ND+["src/lib.rs"],[("index_arr / index_arr_fixed_dims","src/lib.rs"),("get_loc","each interpolator"),("dimprod accumulation","interp_one of each interpolator")])
p("C06","Multilinear evaluation is the tensor product of linear interpolation",
 "In exact arithmetic the multilinear result is the tensor product, over dimensions, of the linear interpolant through the two bounding grid points of the containing cell, the cell index being clamped to the grid. Hence it reproduces grid values at nodes, reproduces functions that are affine in each coordinate everywhere, is continuous, and outside the grid continues the edge cell's affine function in the dimensions that are outside.",
 ["inputs"],"all grids, values and points inside and outside, 1 to 8 dimensions, regular and rectilinear",
 "Tests check particular linear functions on small grids to a tolerance: they do not cover every cell position, region combination, dimension count and non-affine data.",
 ML,[("get_loc clamping","get_loc() of each interpolator"),("recursive/flattened reduction","interp_one(), populate()")])
p("C07","Cubic interior cells are cubic Hermite splines with central slopes",
 "In exact arithmetic, in a cell with grid points on both sides the cubic interpolant is, per dimension, the cubic Hermite polynomial through the cell's two bounding values with slopes given by the three-point (spacing-weighted) central difference at each bounding point. Hence it passes through grid values, its first derivative is continuous across interior grid points, and it reproduces quadratic functions in each coordinate.",
 ["inputs"],"all grids (uneven spacing included), values and points in interior cells, any dimension count up to 8",
 "Tests check quadratic data on a few grids to tolerances; a slope error that vanishes for equal spacing or for quadratic data is not seen, nor are most region combinations.",
 MC,[("interp_inner, normalized_hermite_spline, centered_difference_nonuniform","src/multicubic/*.rs")])
p("C08","Cubic edge cells and extrapolation follow the documented rule",
 "In exact arithmetic, in the first and last cell of a dimension the cubic interpolant matches value and central slope at the inner grid point, matches the value at the outer grid point and is quadratic there (natural end condition); beyond the grid it continues that quadratic when linearize_extrapolation is off, and continues with the constant end slope when it is on. It is continuous with continuous first derivative across the boundary, and each dimension's extrapolation acts on that dimension only.",
 ["inputs"],"all grids, values and points in edge cells and outside on either side of any subset of dimensions, both settings of the flag",
 "Tests extrapolate a linear or quadratic function only, for which several wrong end slopes give the same values; combinations of saturated dimensions are barely sampled.",
 MC,[("Saturation classification","get_loc() in src/multicubic/*.rs"),("interp_inner saturation arms","src/multicubic/*.rs")])
p("C09","Nearest-neighbour returns the value of the closest grid point",
 "N-D nearest-neighbour evaluation returns exactly the stored value at the grid point closest to the observation in every dimension; at the midpoint of a cell the lower grid point is taken, and outside the grid the edge value is returned.",
 ["inputs"],"all grids and points inside, on cell midpoints and outside, 1 to 6 dimensions",
 "Tests use random points, which never hit a tie and do not cover unequal dimension sizes in all dimension counts.",
 NN,[("half-cell comparison and offset","interp_one() in src/nearest/*.rs")])
p("C10","1-D grids find the containing cell and flag extrapolation",
 "Sampling a 1-D grid at a location returns two adjacent grid points and their values: the pair that brackets the location when it is inside, the first pair when below and the last pair when above; the sample is flagged as outside-low exactly when the location is below the first coordinate, outside-high exactly when above the last, and inside otherwise. The coordinates returned are those of the returned values (start + index*step on a regular grid).",
 ["inputs"],"all grids with at least two points and all locations",
 "The 1-D tests compare end results of interpolators on one small grid; most cells, boundary points and flags are never examined.",
 ["src/one_dim/mod.rs"],[("RegularGrid1D::index/at, RectilinearGrid1D::index/at","src/one_dim/mod.rs")])
p("C11","1-D interpolators evaluate their documented rule",
 "In exact arithmetic: linear 1-D evaluation is the line through the sampled cell's two points (also when extrapolating); the hold-last variant is the same inside and returns the first or last value outside; left-hold and right-hold return the left or right value of the cell inside and the first or last value outside; nearest returns the value of the closer point with ties to the left.",
 ["inputs"],"all grids, both grid kinds, all locations inside, at points, at ties, and outside",
 "Tests check a handful of locations on one grid.",
 D1,[("eval_one implementations","src/one_dim/linear.rs, src/one_dim/hold.rs")])
p("C12","Flattened and recursive implementations are interchangeable",
 "For every method, grid kind and dimension count supported by both, the flattened (fixed-dimension) and the recursive implementation accept the same inputs and compute the same real-valued function; the interpn convenience functions, for every dimension count from 1 to their documented maximum (8; 6 for nearest), evaluate the caller's own grid, values, flags and points, and return Err for zero or more dimensions.",
 ["inputs","configurations"],"all inputs; dimension counts 0 to 9; every method",
 "A dimension-count specific slip (one arm of a dispatch, one unrolled bound) is only seen by a test in exactly that dimension count with data that exposes it; 7 and 8 dimensions are barely tested and the error arms not at all.",
 ND,[("dispatch on ndims","interpn() in each module"),("unroll! bounds","flattened interp_one()")])
p("C13","Feature flags do not change the function computed",
 "The fma feature and the absence of std change neither which inputs are accepted, nor which cell is selected, nor the real-valued function computed: each entry point available in two feature configurations computes the same expression up to rounding.",
 ["configurations","inputs"],"feature sets {std}, {std,fma}, {} and {fma}; all inputs",
 "Each test run sees one configuration and compares to loose tolerances on easy data; an fma arm with swapped operands in an extrapolation branch survives; no test runs without std.",
 ND+D1+["src/multicubic/mod.rs"],[("#[cfg(feature = \"fma\")] twins","all evaluation code")])
p("C14","Bounds checks report each dimension's violations exactly",
 "A bounds check sets element i of its output to true exactly when some observation coordinate in dimension i lies outside that dimension's grid extent by at least the tolerance, to false otherwise, for each dimension independently; it errs instead if the numbers of dimensions of grid, observations and output disagree or a dimension has no grid points.",
 ["inputs"],"all grids, observation arrays of any length, tolerances, dimension counts",
 "The tests cover one dimension and one or two out-of-range points.",
 ["src/multilinear/regular.rs","src/multilinear/rectilinear.rs","src/multilinear/regular_recursive.rs","src/multilinear/rectilinear_recursive.rs"],[("check_bounds()","src/multilinear/*.rs")])
p("C15","Evaluation does not allocate, block, or touch global state",
 "Interpolation (everything except the *_alloc convenience functions, and the std-only utilities) performs no heap allocation, input/output, locking, thread or other operating-system interaction, reads and writes no mutable global state, and recurses at most as deep as the number of dimensions; the crate builds without the standard library.",
 ["inputs","configurations"],"every path through every public evaluation entry point in every feature configuration",
 "Tests measure results, not effects; a cache or a collected temporary gives the same numbers.",
 ND+D1+["src/lib.rs"],[("fixed-size scratch arrays","interp_one() of each interpolator"),("#![cfg_attr(not(feature=\"std\"), no_std)]","src/lib.rs")])
p("C16","Interpolators are shareable, immutable borrowed views",
 "Every interpolator and grid type can be sent to and shared between threads, evaluates through a shared reference, has no way to change its grid or values after construction, and cannot outlive the value or grid storage it borrows.",
 ["programs","schedules"],"all safe client programs",
 "A property of which programs compile: tests only contain programs that do.",
 ND+D1,[("&self evaluation methods, private fields, lifetime parameter 'a","struct definitions"),("unsafe_code = \"forbid\"","Cargo.toml")])
p("C17","Results carry the full precision of the element type",
 "A double-precision evaluation never passes a coordinate, grid value or weight through a lower-precision type or integer on the way to the result, other than the cell index; every constant in it is exact.",
 ["inputs"],"all inputs of every f64 entry point",
 "A narrowing conversion costs 9 digits but passes the tolerances and easily representable data of most tests.",
 ND+D1,[("generic arithmetic over T: Float","all evaluation code")])
p("C18","Unrepresentable coordinates are errors on regular grids",
 "Evaluating a regular-grid interpolator (N-D or 1-D) at a coordinate whose cell number (coordinate minus start, over step, rounded down) is NaN or does not fit a machine integer is an Err, on any dimension, and every other coordinate evaluates without error. Rectilinear evaluation never errs on a valid grid.",
 ["inputs"],"all coordinates including NaN, infinities and huge values, in each dimension",
 "No test evaluates at NaN, infinity or huge coordinates.",
 ["src/multilinear/regular.rs","src/multilinear/regular_recursive.rs","src/multicubic/regular.rs","src/multicubic/regular_recursive.rs","src/nearest/regular.rs","src/one_dim/mod.rs"],[("<isize as NumCast>::from(floc).ok_or(..)","get_loc() of the regular interpolators")])
p("C19","Python bindings call the matching Rust function with the given arguments",
 "Each Python-visible raw function evaluates the Rust function its name says (method, grid kind, precision), passing every argument to the parameter it is named for and the caller's own buffers (no copies of the output), returns success exactly when the Rust function does and raises AssertionError with the Rust error otherwise.",
 ["inputs","configurations"],"all sixteen functions and all arguments",
 "Python tests run the f64/f32 functions on easy data mostly through the wrappers with one ordering of arguments; swaps of equal-typed arguments (starts/steps, grids/obs) on symmetric data are not seen, nor are error paths.",
 ["src/python.rs"],[("#[pyfunction] macros","src/python.rs")])
p("C20","Python binding boundary never panics",
 "Calling any raw Python function with arrays of any count, length, contiguity or contents either succeeds or raises an ordinary Python exception: more arrays than the supported number of dimensions, non-contiguous arrays and mismatched lengths are reported as exceptions, never as a Rust panic.",
 ["inputs"],"all argument lists accepted by the signatures",
 "No Python test passes more than a few dimensions or a non-contiguous array.",
 ["src/python.rs"],[("unpack_vec_of_arr!, as_slice()?","src/python.rs")])
p("C21","Raw module, stub and registered functions agree",
 "The raw module exports exactly the functions registered by the compiled extension, and the type stub declares each of them with the same parameter names in the same order and the precision its name says.",
 ["configurations"],"every function of the three interfaces",
 "Tests import a few names; a missing or misordered stub entry only misleads type checkers and callers.",
 ["src/interpn/raw.py","src/interpn/raw.pyi","src/python.rs"],[("__all__ and imports","src/interpn/raw.py"),("#[pymodule]","src/python.rs"),("stub signatures","src/interpn/raw.pyi")])
p("C22","Wrapper classes evaluate the right function for their data type",
 "eval, eval_unchecked and check_bounds of each Python interpolator class call the raw function of the class's method and grid kind and of its value array's precision (double for float64, single for float32, TypeError for anything else), passing the interpolator's own grid, values and flags and the caller's observations in the right positions; the result is the caller's output array when one is given, and otherwise a new array shaped like the first observation array.",
 ["inputs","configurations"],"six classes, both precisions, with and without out",
 "Python tests cover mostly float64/float32 evaluation on symmetric grids, never pass out, and call check_bounds in one dimension.",
 PYW,[("dtype dispatch in eval_unchecked/check_bounds","src/interpn/*.py")])
p("C23","Wrapper classes reject malformed interpolators",
 "Constructing or deserializing a Python interpolator object fails unless it has between 1 and the maximum supported number of dimensions (8; 6 for nearest), per-dimension arrays agreeing in count, at least the minimum number of points per dimension where the class documents one, values matching the product of dimension sizes, positive steps or strictly increasing grids, one common data type for all arrays, and contiguous data; a constructed object cannot be modified.",
 ["inputs"],"all field values, both constructors (new and model validation)",
 "No Python test constructs a malformed interpolator.",
 PYW,[("_validate_model","src/interpn/*.py"),("ConfigDict(frozen=True, extra='forbid')","src/interpn/*.py")])
p("C24","JSON round trip preserves every field losslessly",
 "Serializing a Python interpolator to JSON and back gives an object with the same class, fields, data types and bit-identical array contents: each array is written and read by conversions that lose nothing, at its own precision, and the precision tag selects the matching array class.",
 ["inputs","histories"],"all interpolators of the six classes",
 "The round-trip tests use a few small arrays and one precision.",
 ["src/interpn/serialization.py"]+PYW,[("ArrayF64/ArrayF32 validators and serializers, discriminated union","src/interpn/serialization.py")])
p("C25","interpn() selects the function for method, dtype and regularity",
 "The one-shot Python function evaluates the raw function for the requested method, the values' precision and the grid's regularity (regular exactly when the caller says so or every grid's spacings are all equal), giving it starts, steps and sizes taken from the caller's grids or the grids themselves, with flags and observations passed through; an unsupported method is a ValueError and an unsupported precision an AssertionError.",
 ["inputs","configurations"],"all methods, precisions, regular and irregular grids, flags",
 "Tests compare a few combinations on nice grids.",
 ["src/interpn/__init__.py"],[("match dispatch and _check_regular","src/interpn/__init__.py")])
p("C26","interpn() honours its out and bounds-checking arguments",
 "A caller-supplied output array receives the results, whatever it held before and whatever its size and memory layout, and the returned array has its shape; without one a new array shaped like the first observation array is returned. With bounds checking on, ValueError is raised exactly when the bounds check of the same grid flags some dimension, in any number of dimensions, and nothing is evaluated in that case.",
 ["inputs"],"all output arrays, number of dimensions, observation sets",
 "No test passes out, and bounds checking is only exercised in one dimension.",
 ["src/interpn/__init__.py"],[("out handling, outb allocation","src/interpn/__init__.py")])
p("C27","Floating-point error stays within a small multiple of machine epsilon",
 "Each evaluation differs from the exact value of its interpolant by at most a modest multiple of the unit roundoff times the magnitude of the data, also for extrapolation and in many dimensions.",
 ["inputs"],"all grids, values and points",
 "Error tests sample some grids.",
 ND+D1,[("evaluation order, fma","all evaluation code")])
p("C28","Cost scales as documented",
 "Evaluation takes time proportional to 2^N (linear) or 4^N (cubic) per point plus a logarithmic search on rectilinear grids, and stack proportional to the number of dimensions.",
 ["inputs"],"all grid sizes and dimension counts",
 "Benchmarks are not assertions.",
 ND,[("unrolled loops, bisection","all evaluation code")])
p("C29","Wrapper constructors keep the caller's data",
 "The new() constructor of each Python interpolator class builds an object whose grid (dims, starts and steps, or grids) and values hold exactly what the caller gave, in the data type of the values, flattened in C order and contiguous, for inputs of any shape, layout or mixed precision; linearize_extrapolation is what the caller gave, True by default; the caller's arrays are not modified.",
 ["inputs"],"six classes, all array shapes, layouts and precisions",
 "Python tests only construct interpolators from contiguous one-precision arrays.",
 PYW,[("new()","src/interpn/*.py")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
