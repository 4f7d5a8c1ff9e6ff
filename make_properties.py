#!/usr/bin/env python3
"""Writes properties.jsonl. Kept so that the list stays reviewable as text."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


I, C, S, H, F = "inputs", "configurations", "schedules", "histories", "fault_sequences"

p("C01", "Density renders conserve mass and put it where the tetrahedra are",
  """Rendering the density of a complete set of sheet files onto a 3D grid spreads the mass of every
  tetrahedron of the (subsampled) particle lattice over exactly the pixels the tetrahedron's points fall in,
  periodically wrapped: each pixel holds no mass that no tetrahedron can reach and all mass of the tetrahedra
  that lie entirely inside it. Over the whole box the pixel values sum to Cells^3 (mean density 1), and a
  sub-box holds the same mass in a block of pixels that the same block holds in a render of the whole box. The
  rendered grid covers the requested box with less than one pixel to spare per side and is never wider than
  the simulation.""",
  [I, C], "All displaced particle lattices, segment sizes, subsampling factors, box placements (also wrapping around the periodic boundary), grid sizes, sample counts.",
  "The repository tests one buffer-length helper of the density package; no test renders anything.",
  ["render/render.go", "render/box.go", "render/density/interpolator.go", "render/density/buffer.go", "render/geom/tetra.go", "render/geom/grid.go"],
  [("per-worker tetrahedron deposit", "render/density/interpolator.go"), ("segment/box overlap and merge", "render/box.go")],
  ["Box.Vals() after Manager.RenderDensity"])

p("C02", "Projected density images are the column means of the volume",
  """A box with a projection axis yields a 2D image whose pixel (i, j) is the mean over the box's depth of the
  density in that column of pixels, for each of the axes X, Y and Z. The remaining two axes keep their order
  (lower axis first, varying fastest), and the image of the whole box sums to Cells^2 for every axis.""",
  [I, C], "All lattices, box placements and depths, axes, grid sizes.",
  "No test renders an image.",
  ["render/box.go", "render/render.go"],
  [("overlapSegment2D/overlapDomain2D.Add", "render/box.go"), ("box2D", "render/box.go")], ["Box.Vals() of a box with ProjectionAxis"])

p("C03", "Velocity renders are mass-weighted mean velocities",
  """Rendering velocity gives, in every pixel some mass falls in, the mean velocity of that mass in km/s - the mean
  of the linearly interpolated velocities of the sample points in the pixel - for volumes and for projections
  (where the mean is over the whole column of the box). A uniform velocity field is rendered as that velocity in
  every occupied pixel, results stay within the extremes of the contributing particles, and pixels with no mass
  hold exactly zero, never NaN. """,
  [I, C], "All lattices, velocity fields, boxes, axes, grid sizes.",
  "No test renders a velocity field.",
  ["render/density/buffer.go", "render/density/interpolator.go", "render/box.go", "render/render.go"],
  [("weighted velocity buffer", "render/density/buffer.go"), ("overlap Add", "render/box.go")], ["Box.Vals() of a velocity render"])

p("C04", "Renders do not depend on threads, file order or other boxes",
  """What is rendered into a box does not depend on how many threads render it, on the order in which the sheet
  files are listed, on which other boxes are rendered in the same run, or on which files lie outside of the box.
  Every sheet file that reaches the box is used exactly once, every tetrahedron is deposited exactly once, and
  no thread's contribution is lost.""",
  [S, I, C], "All thread counts, permutations of the files, sets of companion boxes, repetitions (real scheduling).",
  "Nothing in the repository runs the render manager, with one thread or many.",
  ["render/render.go", "render/box.go"],
  [("worker channel hand-off", "render/render.go"), ("renderDensity loop", "render/render.go")], ["Box.Vals() across configurations"])

p("C05", "gtet grid files read back as written",
  """A grid written with its header by the output writer is read back by the Go reader as the same header and the
  same values in the same order (float32 precision), for scalar and vector grids, for every grid shape including
  projected images, and for non-uniform and empty-count shapes the value count always matches the pixel span.
  The header read from the file says whether the grid is a vector grid in agreement with the buffer that was
  written.""",
  [I], "All header contents and buffer shapes.",
  "No test writes or reads a grid file.",
  ["render/io/output.go", "render/io/buffer.go", "render/density/buffer.go"],
  [("WriteBuffer/ReadGrid/ReadGridHeader", "render/io/output.go"), ("WriteGrid/WriteVectorGrid", "render/io/buffer.go")], ["the bytes of the .gtet file", "io.ReadGrid"])

p("C06", "The gtet output of a render run describes what was rendered",
  """Running the program in density mode on sheet files and a bounds file writes one gtet file per box whose header
  tells the truth about that run: the quantity, the number of pixels per side and pixel width of the simulation,
  the pixel origin and span, the physical location and width, the projection axis, the particles per tetrahedron
  actually used, the box width and the cosmology and redshift of the sheets, in both the grid-wide and the
  per-box settings, whatever other boxes the run renders. The values in the file are the render of that box.""",
  [I, C], "All combinations of sheets, bounds, pixel counts, image settings, particle counts, quantities.",
  "The program itself is not run by any test.",
  ["render/main/main.go", "render/io/output.go", "render/render.go", "render/box.go"],
  [("densityMain", "render/main/main.go"), ("NewRenderInfo and friends", "render/io/output.go")], ["the .gtet files written by gotetra"])

p("C07", "The Python reader agrees with what gotetra wrote",
  """python/gotetra.py reads every gtet file that gotetra writes: read_header returns the header's fields as the Go
  side set them (quantity, axis, cosmology, pixel counts and spans, physical location and width, particle
  settings) and read_grid returns the grid with the same value at the same pixel, as an array of the documented
  shape (axes in z, y, x order; three of them for vector grids; two axes for projections).""",
  [I], "All headers, shapes, axes, scalar and vector grids.",
  "The Python code has no tests, and nothing links it to the Go writer.",
  ["python/gotetra.py", "render/io/output.go"],
  [("struct layout mirrored on both sides", "python/gotetra.py")], ["python3 gotetra.read_header / read_grid"])

p("C08", "Sheet files read back as written, whatever their byte order",
  """Positions, velocities and headers written as a sheet file are read back bit for bit, together or one at a time,
  and the same file in the other byte order reads back the same. Reading never writes outside of the
  caller's buffer, the derived cell bounds and particle counts match the header, and writing leaves the caller's
  arrays as they were.""",
  [I], "All headers, particle arrays, both byte orders.",
  "No test reads or writes a sheet file.",
  ["render/io/io.go"], [("WriteSheet/ReadSheet*At", "render/io/io.go"), ("byte-order conversion", "render/io/io.go")], ["io.ReadSheetHeaderAt", "io.ReadSheetPositionsAt", "io.ReadSheetVelocitiesAt"])

p("C09", "Broken input files are reported, not turned into data",
  """A sheet, gtet, Gadget or binary halo file that is missing, cut short at any byte, or not of the expected kind
  makes its reader (Go or Python) report a failure - an error, an exception, or a deliberate fatal message where
  the reader has no error - and never return normally with made-up or stale values. The program stops with a
  message at such a file and writes no output made from it.""",
  [F, I], "Every truncation point of generated files, missing files, bad magic numbers.",
  "No test feeds a reader anything.",
  ["render/io/io.go", "render/io/output.go", "render/halo/io.go"],
  [("error returns of the readers", "render/io/io.go")], ["errors of io.Read*"])

p("C10", "The Python sheet reader agrees with the Go sheet writer",
  """python/gtet.py reads every sheet file gotetra writes: the header fields under their right names, and the
  position and velocity arrays with the right values in the order of the file.""",
  [I], "All headers and particle arrays.",
  "No test runs the Python code.",
  ["python/gtet.py", "render/io/io.go"], [("struct layout mirrored on both sides", "python/gtet.py")], ["python3 gtet.File"])

p("C11", "Gadget files are read for what they contain",
  """Reading a Gadget-2 file gives its header (counts, mass, box width, redshift, cosmology) and, per particle and in
  file order, its id, position wrapped into the periodic box [0, width) and velocity converted to peculiar km/s
  (times sqrt(a)), for 32- and 64-bit ids, single and double precision blocks and both byte orders as configured.""",
  [I], "All particle counts, positions (up to a period outside of the box), ids, redshifts, byte orders.",
  "No test reads a Gadget file.",
  ["render/io/io.go"], [("ReadGadgetHeader/ReadGadgetParticlesAt", "render/io/io.go")], ["io.ReadGadget*"])

p("C12", "Conversion to sheets keeps every particle in its lattice place",
  """Running the program in conversion mode on a snapshot of Gadget files writes Cells^3 sheet files with distinct
  names, the sheet of cell (i, j, k) holding the (W+1)^3 particles of that cell of the Lagrangian lattice and the
  shared layer of the next cells, periodically, in lattice order, with positions and velocities of exactly the
  particles of those ids in the configured units, whatever the order of the particles and their splitting into
  files. Iterated conversions put each snapshot of the range in its own directory. Snapshots that do not make up
  the whole lattice, or a lattice that Cells does not divide, are turned down.""",
  [I, C], "All particle orders, splittings into files, cell counts, unit scalings, iteration patterns.",
  "The program is not run by any test.",
  ["render/main/main.go", "render/io/io.go", "render/io/config.go"],
  [("convertSnapshotMain, createGrids, writeGrids, copyToSegment", "render/main/main.go")], ["the sheet files written by gotetra"])

p("C13", "Sheet headers enclose their particles",
  """The position bounds written in a sheet's header contain every particle of the sheet, periodically, and are no
  larger than the tight bounding box of its particles; so do and are the velocity bounds. Counts, cell indices,
  grid widths, particle mass, cosmology, redshift and box width are those of the snapshot in the configured units.""",
  [I, C], "All snapshots.",
  "The program is not run by any test.",
  ["render/main/main.go", "render/io/io.go"], [("boundingBox of a segment", "render/main/main.go")], ["headers of the sheet files written by gotetra"])

p("C14", "Tetrahedra: volume, barycenter, containment and sampling agree",
  """For any tetrahedron the volume is the absolute determinant over six, the barycenter the mean of its four
  corners, the containment test true inside and false outside, and random samples lie inside of it and are
  uniformly distributed; its cell bounds are the smallest block of cells that encloses it. The six tetrahedra of
  every lattice cube tile the cube exactly, without overlap and meeting those of neighbouring cubes in the same
  triangles, with the corner indices of the lattice's particles, at every skip. The eight tetrahedra around a
  lattice point have the point and three neighbours as corners, and exist exactly as far as they are inside of the
  lattice.""",
  [I], "All corner positions (containment: away from faces of reasonably fat tetrahedra), lattice points, segment widths and skips.",
  "The test suite checks three fixed volumes and containments.",
  ["render/geom/tetra.go"], [("Tetra", "render/geom/tetra.go"), ("TetraIdxs", "render/geom/tetra.go")], ["geom.Tetra methods", "geom.TetraIdxs"])

p("C15", "Periodic vector arithmetic",
  """Vector scaling, addition, subtraction and dot and cross products (a.Cross(b) is a x b) equal their definitions
  in float32, in place and into a target, also when the target is an operand. The modulo of a vector, for any
  coordinates, lies in [0, width) and differs from it by whole periods, and the periodic difference of two
  positions in the box (or up to half a width outside of it) is the shortest one.""",
  [I], "All finite vectors, box widths and coordinates.",
  "No test covers the vector operations.",
  ["render/geom/vec.go"], [("Vec methods", "render/geom/vec.go")], ["geom.Vec methods"])

p("C16", "Grid indices and cell bounds are consistent",
  """Grid coordinates and indices are inverse to each other and row-major (x fastest), and bounds checks accept
  exactly the cells of the grid's block. Two cell bounds intersect if they share a cell of the periodic grid and
  do not if there is a gap between them; without periodicity they intersect exactly if they share a cell. Scaling
  vectors to a block maps a position to its offset in cells from the block's origin, within the period and within
  the block if it is in the block; the cell bounds of a sheet are the cells its bounding box touches.""",
  [I], "All grid sizes, origins, spans and cells.",
  "No test covers the grid type.",
  ["render/geom/grid.go", "render/geom/tetra.go"], [("Grid", "render/geom/grid.go"), ("CellBounds", "render/geom/tetra.go")], ["geom.Grid and geom.CellBounds methods"])

p("C17", "Finite differences on grids",
  """Derivatives of a grid along each axis are those of the central difference stencil of the requested order (2 or
  4), with periodic wrap-around on full-box grids and one-sided stencils of the same order at the edges of sub-
  boxes, in units of the pixel width: exact for polynomials up to the order, linear in the input, and the same
  along x, y and z up to relabelling of the axes (grids of at least 3 cells per side at order 2 and 5 at order 4).
  Gradient, divergence and curl are the corresponding combinations (also into supplied storage or added to or
  subtracted from it), and neither the inputs nor the caller's options are changed.""",
  [I, C], "All grids, orders, axes, periodicities.",
  "No test covers finite differences.",
  ["render/geom/deriv.go"], [("deriv stencils", "render/geom/deriv.go")], ["geom.GridLocation.Deriv/Gradient/Divergence/Curl"])

p("C18", "Finalized quantity buffers hold the advertised quantity",
  """Each render quantity finalizes its accumulated buffers into the advertised field: density as accumulated,
  density gradient as the gradient of density, velocity as the weighted mean, velocity divergence and curl as
  those of the mean velocity. Scalar quantities have a scalar buffer and vector quantities a vector one, clearing
  a buffer empties it, and a slice of a buffer is the given range of it. Quantity names convert to quantities and
  back.""",
  [I, C], "All quantities, grid sizes, buffer contents.",
  "One helper of the package is tested.",
  ["render/density/buffer.go", "render/density/quantity.go"], [("Buffer implementations", "render/density/buffer.go")], ["density.Buffer methods"])

p("C19", "Tetrahedron histograms count every sample of every tetrahedron once",
  """A tetrahedron histogram over the whole box counts, in logarithmic or linear bins of density, exactly the
  configured number of sample points for each of the 6 tetrahedra of each cube of the (subsampled) particle
  lattice, each in the bin of the density of the grid pixel at its periodically wrapped position (a bin includes its
  lower edge and not its upper one), irrespective of
  the number of threads and the order of the sheets. A histogram over a sub-box counts just the samples inside of
  it. The program writes the bins' centers and counts as text, one file per box.""",
  [I, C, S], "All lattices, boxes, grids, bins, subsamplings, thread counts.",
  "No test renders a histogram.",
  ["render/hist.go"], [("HistManager", "render/hist.go")], ["HistManager results"])

p("C20", "Configuration files are checked before use",
  """The example configuration of every mode parses and is accepted after filling in its required values, and a
  configuration parses into the values it spells, defaults included. A configuration with a missing or out-of-
  range required setting, or with a setting outside of its documented values, is rejected with nothing written,
  and a valid one is accepted.""",
  [C], "All combinations of set, unset, boundary and invalid values.",
  "No test parses a configuration.",
  ["render/io/config.go"], [("Valid* methods and CheckInit", "render/io/config.go")], ["Valid*/CheckInit results"])

p("C21", "A ball request is rendered as its bounding box",
  """A ball request becomes the box centred (periodically) on the ball whose side is 2 * Radius * max(RadiusMultiplier, 1 if
  unset), with origin in [0, TotalWidth), keeping the ball's name and projection axis.""",
  [I, C], "All ball positions and radii.",
  "No test converts a ball.",
  ["render/io/config.go"], [("BallConfig.Box", "render/io/config.go")], ["io.BallConfig.Box"])

p("C22", "Linear interpolators",
  """Linear, bilinear and trilinear interpolation reproduce the tabulated values at the nodes and any function linear
  in each coordinate everywhere between them, stay within the extremes of the enclosing cell's nodes, treat the
  axes in the documented order (x fastest), and give the same results for increasing, decreasing and uniformly
  spaced nodes and for single and bulk evaluation. Points outside of the nodes, and tables whose
  lengths do not fit, are refused.""",
  [I], "All node sets, values, evaluation points.",
  "No test covers linear interpolation.",
  ["math/interpolate/linear_interpolators.go", "math/interpolate/search.go"], [("Linear/BiLinear/TriLinear", "math/interpolate/linear_interpolators.go")], ["Eval/EvalAll"])

p("C23", "Cubic splines in one dimension",
  """A spline passes through its nodes, has continuous first and second derivatives and vanishing second derivative
  at the ends, and is exact for linear data. Its reported derivatives of every order and its integrals are those
  of the same piecewise cubic, for increasing and decreasing nodes alike, and integrals are additive and change
  sign with their limits. The tridiagonal solver behind it solves its system.
  Unsorted nodes, lengths that do not fit and systems with contradicting equations are refused.""",
  [I], "All node sets (two or more), values, evaluation points and limits.",
  "Fixed examples of evaluation and one derivative are tested.",
  ["math/interpolate/spline.go"], [("Spline", "math/interpolate/spline.go"), ("TriDiag", "math/interpolate/spline.go")], ["Spline.Eval/Deriv/Integrate", "TriDiagAt"])

p("C24", "Bi- and tricubic interpolators",
  """Bicubic and tricubic interpolation reproduce the tabulated values at the nodes and agree with interpolating by
  one-dimensional cubic splines along the axes in turn, in the documented order of axes, so the result at a point does not depend on what was evaluated
  before. Tables whose lengths do not fit are refused.""",
  [I, H], "All node sets, values, sequences of evaluation points.",
  "No test covers them.",
  ["math/interpolate/cubic_interpolators.go"], [("BiCubic/TriCubic", "math/interpolate/cubic_interpolators.go")], ["Eval/EvalAll"])

p("C25", "Smoothing kernels",
  """Convolving a series with a kernel not wider than it gives at every index the weighted sum of the series around
  it, with the values beyond the ends supplied by the chosen boundary rule (extension by the end value, zeros,
  periodic wrap, reflection that repeats the end value), and leaves the input alone. The constructed kernels (top-
  hat, Gaussian, Savitzky-Golay and its derivatives) sum to one (or zero for derivatives) and reproduce or
  differentiate polynomials up to their order; the Savitzky-Golay weights are those of the least-squares
  polynomial. Kernels without a center or of too high an order for their width are refused.""",
  [I], "All series, kernel widths not above the series length, boundary rules.",
  "Fixed examples of one kernel are tested.",
  ["math/interpolate/filter.go"], [("Kernel.Convolve*", "math/interpolate/filter.go")], ["Kernel.Convolve"])

p("C26", "Dense linear algebra",
  """Matrix products, matrix-vector products and transposes equal their definitions for all compatible shapes. LU
  decomposition with pivoting solves every well-conditioned system for vector and matrix right-hand sides,
  inverts, and gives the determinant with its sign (zero for singular matrices). All of this holds in both
  precisions, into fresh or supplied (also reused or aliased) storage, without changing the inputs. Shapes that do not fit are refused (panic).""",
  [I], "All shapes and well-conditioned matrices, including ones which need row exchanges.",
  "A few fixed 3x3 examples are tested.",
  ["math/mat/mat.go", "math/mat/mat32.go"], [("LUFactors", "math/mat/mat.go")], ["Mult, LU, Solve*, Invert, Determinant"])

p("C27", "Random generators",
  """Every generator backend is a function of its seed, yields uniform deviates in [0, 1), in [low, high) and
  integers in [low, high) as asked, and yields the same sequence for any mix of one-at-a-time and bulk calls. The
  sequences are those of the named algorithms: Marsaglia's 128-bit xorshift, Go's math/rand, and the lagged
  recurrence x_n = x_(n-2444) - x_(n-4187) mod 1 of the Tausworthe type; none has dead bits or short repeats.""",
  [I, H], "All seeds, ranges, batch sizes and mixes of calls.",
  "The tests only measure speed.",
  ["math/rand/rand.go", "math/rand/xorshift.go", "math/rand/tausworthe.go", "math/rand/golang.go"], [("Generator", "math/rand/rand.go")], ["Generator methods"])

p("C28", "Sobol sequences have low discrepancy",
  """In every dimension it supports, the origin together with the first 2^m - 1 points of the Sobol generator fall
  one into each of the 2^m equal intervals of [0, 1), and pairs of dimensions are jointly balanced as their
  generating polynomials imply; the points are those of the standard Gray-code sequence. A fresh or re-initialized
  generator repeats the sequence.""",
  [I, H], "All dimensions, lengths and mixes of calls.",
  "No test covers the Sobol generator.",
  ["math/rand/sobol.go"], [("SobolSequence", "math/rand/sobol.go")], ["SobolSequence.Next/NextAt"])

p("C29", "Sorting and order statistics",
  """Sorting returns the same multiset in nondecreasing order for every input, and reversing reverses. The n-th
  largest value, the median (the middle value, or one of the two) and the percentiles (percentile p counts from
  the largest: at most a fraction p of the values is above it and at most the rest below) are those of the sorted
  input, and leave the caller's data alone when given a buffer.""",
  [I], "All arrays: duplicates, sorted, reversed, short and long, infinities.",
  "Random arrays of fixed kinds are tested; adversarial shapes are not.",
  ["math/sort/quick.go", "math/sort/shell.go", "math/sort/median.go", "math/sort/sort.go"], [("Quick/Shell/NthLargest", "math/sort")], ["Quick, Shell, Median, Percentile, NthLargest"])

p("C30", "Cosmological densities",
  """Hubble fraction and critical and mean densities satisfy their definitions at all redshifts: h(z)^2 = OmegaM
  (1+z)^3 + OmegaL, rho_c = 3 H^2 / 8 pi G in Msun/h per (Mpc/h)^3 units, and rho_m growing as (1+z)^3 from OmegaM
  rho_c today in flat cosmologies. In these units none depends on the Hubble constant. The densities of
  render/scripts/read_halo.py, which has its own cosmology, satisfy them, too.""",
  [I], "All redshifts and parameters.",
  "No test covers the cosmology.",
  ["cosmo/param.go", "cosmo/const.go", "render/scripts/read_halo.py"],
  [("RhoCritical etc.", "cosmo/param.go"), ("rho_c, rho_m", "render/scripts/read_halo.py")], ["cosmo functions"])

p("C31", "Derivatives of tabulated functions",
  """Derivatives of tabulated functions of order 2 and 4 are exact for polynomials up to the order on even and uneven
  nodes, linear in the values, the identity for order zero, and independent of supplied output storage; results share no storage with the table. Tables too
  short for the stencil and other orders are refused.""",
  [I], "All node sets, values, orders.",
  "No test covers them.",
  ["math/calc/deriv.go"], [("Deriv", "math/calc/deriv.go")], ["calc.Deriv"])

p("C32", "Subhalo finding",
  """The subhalo finder reports for every halo exactly the halos whose spheres, with radii scaled by the given
  multiple, overlap its own under periodic distance, split into hosts (earlier in the list) and subhalos (later),
  sorted and without repeats, whatever the number of grid cells and the previous searches, and changes none of its
  inputs. The search grid puts every halo in the one cell it is in, and the cell bounds of a sphere are the cells
  it reaches.""",
  [I], "All halo catalogues: duplicates, halos on and across box edges, radii larger than cells (up to about half the box).",
  "No test covers halo finding.",
  ["render/halo/finder.go", "render/halo/grid.go"], [("SubhaloFinder", "render/halo/finder.go"), ("Grid", "render/halo/grid.go")], ["SubhaloFinder results"])

p("C33", "Halo mass and radius definitions",
  """Radius and mass of a halo convert into each other as M = 4/3 pi R^3 times the definition's overdensity (200, 500
  or 2500 times the critical density, 200 times the mean density, 18 pi^2 times the critical density for the
  virial radius) at the snapshot's redshift with comoving radii, monotonically and also in place. The definitions'
  names are recognized in any capitals, with or without the R, and name their columns of a Rockstar catalogue.""",
  [I], "All masses, redshifts, cosmologies, definitions.",
  "No test covers them.",
  ["render/halo/radius.go"], [("Radius definitions", "render/halo/radius.go")], ["halo radius functions"])

p("C34", "Rockstar halo catalogues read back the same from text and binary",
  """A Rockstar text catalogue and the binary catalogue converted from it read back as the same halos: the same ids
  and the same columns in any selection, with kpc converted to Mpc and radii worked out from masses on request.
  Restricting a conversion to the n most massive keeps exactly the whole rows of the n largest M200b. The sorted
  reader returns whole halos from largest to smallest.""",
  [I], "All catalogues, column selections and n.",
  "No test covers them.",
  ["render/halo/io.go"], [("ReadBinaryRockstar", "render/halo/io.go")], ["halo.ReadBinary*"])

p("C35", "Line profiles through a grid",
  """Running render/scripts/profile.go on a scalar grid file of a cubical block and a list of halos writes four files
  of 1000 lines from the middle of the block: in random directions, and in random directions perpendicular to each
  axis. Every line steps by one pixel along its steepest axis; each step is written with its distance from the middle
  and the density interpolated linearly along the other two axes, up to where the first line leaves the grid. The
  densities on pixels within the (periodic) bounds of any halo of the list but the first are NaN. Vector grids,
  incomplete grids and missing files are refused.""",
  [I], "All grids, positions of the block in the box, and subhalos inside and across its and the box's faces.",
  "No test runs the script.",
  ["render/scripts/profile.go", "render/halo/finder.go"],
  [("extractLine, removeSubhalo", "render/scripts/profile.go"), ("Bounds", "render/halo/finder.go")],
  ["the *_lines.txt files"])

p("C36", "Derivatives in the Python analysis scripts",
  """vector_deriv of render/scripts/deriv.py is exact for polynomials up to its order (2 or 4) on evenly spaced nodes, up
  to and including the ends, linear in the values and local; it raises ValueError for other orders and lengths that
  differ. spline_deriv without smoothing is exact for cubics. The conversions between linear and logarithmic
  derivatives, of the values or of the base only, in any logarithm's base, equal their definitions and undo each other.
  The Churazov interpolant's curve and derivatives are those of the Gaussian-weighted straight-line fit to the
  logarithms, hence exact for power laws.""",
  [I], "All tables and functions.",
  "No test covers Python code.",
  ["render/scripts/deriv.py"], [("vector_deriv, ChurazovInterpolant", "render/scripts/deriv.py")],
  ["return values"])

p("C37", "Outputs are complete, or the run fails",
  """A run of the program (rendering, histograms, conversion), of the catalogue converters and of the line profile
  script that ends successfully has written every output in full: when an output file cannot be created or a write to
  it fails, at any byte, the run ends with a failure status and a message (an error from the converters). However many
  sheets and boxes there are, no more than a few dozen files are open at once.""",
  [F], "All runs; a disk that fills at any byte of any output, outputs that cannot be created, few open files.",
  "No test writes to a full disk.",
  ["render/main/main.go", "render/io/output.go", "render/io/io.go", "render/halo/io.go", "render/scripts/profile.go"],
  [("WriteBuffer", "render/io/output.go"), ("WriteSheet", "render/io/io.go"), ("writeHist", "render/main/hist.go"),
   ("RockstarConvert", "render/halo/io.go")],
  ["exit status", "sizes and bytes of output files"])

p("C38", "The command line does what it says",
  """The program runs exactly one mode: without a mode flag, with several, an unknown flag, a number of threads below
  one, missing files, or (rendering, histograms) without bounds files it ends with a failure status and a message and
  writes nothing. -ExampleConfig prints the named example, which is accepted in its mode once paths are filled in;
  other names are refused. Every box and ball of every bounds file is written once under its own name between prefix
  and suffix; a name used twice is refused before anything is written. A log file gets the messages and a profile file
  a CPU profile, in every mode, without changing the outputs.""",
  [I], "All combinations of flags, modes, bounds files and names.",
  "No test runs the program.",
  ["render/main/main.go", "render/io/config.go"],
  [("main, getModeName", "render/main/main.go"), ("renderMain, tetraHistMain", "render/main/main.go")],
  ["exit status", "output files", "standard output"])

p("C39", "Shells and splashback radii of the Python analysis scripts",
  """In render/scripts, fits of shells to points (penna_coeff(s), fast_penna_coeffs) are least-squares fits of the terms
  sin^(i+j)(theta) cos^k(theta) sin^j(phi) cos^i(phi), which penna_func sums, and so reproduce shells made of them.
  Points are read with their plane, turned to polar coordinates and back, put in the bins of their angles modulo a turn,
  estimated by sums of Gaussians, and followed around a circle by KDETree. nan_split gives the curves between missing
  values; the bin converters give the means over the bins a curve reaches. Profiles of profile.py report the slopes of
  power laws, smoothed or not, and as splashback radius the steepest local minimum of the slope below the limit at
  which the density is the lowest so far; those smoothed over many windows keep the segments whose radius hardly moves.
  plot_filament_remover.py takes the lines of sight of a plane for what their files say and finds these radii along them.""",
  [I], "All sets of points, curves, windows and bins.",
  "No test covers Python code.",
  ["render/scripts/kde.py", "render/scripts/2d_kde.py", "render/scripts/penna.py", "render/scripts/mcarlo.py",
   "render/scripts/profile.py", "render/scripts/plot_savgol_profile.py", "render/scripts/plot_profile.py",
   "render/scripts/plot_filament_remover.py"],
  [("penna_coeffs, penna_func, KDETree", "render/scripts/2d_kde.py"), ("BinConverter, AbstractProfile", "render/scripts/profile.py")],
  ["return values"])

p("C40", "The Python tools show and describe the grid they are given",
  """python/render.py draws, of an image, its pixels and, of a volume, their mean over the layers around the middle one
  along the axis asked for (only those which exist, if the depth asked for is larger): scalars as logarithms of the
  magnitude, vectors component by component, limited to the range of the palette, with the axes, extent, position and
  depth of what is drawn, and saves it at one pixel per pixel; it refuses, with status 1, to show an image along an axis
  it was not projected along. example.py describes the file, its quantity, size and the value at the pixel it names, and
  gotetra.py prints the header, as written by gotetra. add_densities.py writes the sum of its inputs.""",
  [I], "All grids, axes, depths, palettes and outputs.",
  "No test covers Python code.",
  ["python/render.py", "python/example.py", "python/gotetra.py", "render/scripts/add_densities.py"],
  [("render.py", "python/render.py"), ("Header.__str__, read_grid", "python/gotetra.py"), ("indexing", "python/example.py")],
  ["what is drawn", "standard output", "exit status", "output file"])

p("C41", "Metropolis chains sample the Boltzmann distribution",
  """render/scripts/mcarlo.py's chains visit states as often as exp(-E/T) says: those of Potential1D have its mean and
  variance, and cold membranes end at the minimum of their energy, which is that of springs between neighbours around the
  circle and to the innermost point of each bin (dE is its change). One step proposes one change of at most the given
  length, and the number of those accepted is returned, together with the states of every sample_rate-th step;
  means and standard deviations are those of the states from burn_in on.""",
  [I], "All potentials, temperatures, steps, points, bins, burn-ins and sampling rates.",
  "No test covers Python code, and a wrong distribution is visible only in the statistics of long chains.",
  ["render/scripts/mcarlo.py"],
  [("AbstractMetropolis.sample", "render/scripts/mcarlo.py"), ("Potential1D", "render/scripts/mcarlo.py"), ("Membrane", "render/scripts/mcarlo.py")],
  ["states", "number of moves", "statistics", "energies"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
