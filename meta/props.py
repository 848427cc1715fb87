prop('P01', 'Element access stays in bounds and addresses the right element',
     'For every vector or view of any dimension and size, indexing it with any combination of integers, ranges, placeholders and index lists either designates only elements that exist or stops with an error. '
     'A valid non-negative index designates the element at that row-major position, a valid negative index counts from the end of its own dimension, and an index past the end is always rejected. '
     'The shape of what is returned is determined by the indices given, and the vector being read keeps its shape.',
     ['inputs', 'programs'], 'all shapes, all index values of every kind, every element type instantiated',
     'Tests index a few small vectors with a few constants; the boundary depends on the relation between every dimension and every index.',
     ['include/vif/core/vec.hpp', 'include/vif/core/bits/access.hpp', 'include/vif/core/range.hpp', 'include/vif/core/bits/iterator.hpp'],
     [('to_idx bound checks', 'include/vif/core/bits/access.hpp'), ('operator[] / operator()', 'include/vif/core/vec.hpp'), ('check_bounds of ranges', 'include/vif/core/range.hpp')], AI, AIN)
prop('P02', 'A vector always holds exactly as many elements as its dimensions say',
     'After construction, copy, move, assignment, conversion, resizing, clearing, swapping, insertion or removal, the number of stored elements of every vector involved, including a moved-from one, equals the product of its dimensions. '
     'The shape obtained is the one requested by the operation (the shape of the source for copies and moves, the shape given for resizing and construction, one more or one fewer element for insertion and removal). '
     'Assigning a vector or view to a view requires the same number of elements and never reads or writes outside either side.',
     ['inputs', 'histories'], 'all shapes and all single operations, hence by induction all sequences of operations',
     'Tests run short fixed sequences on non-empty vectors and rarely look at a moved-from vector.',
     ['include/vif/core/vec.hpp', 'include/vif/core/bits/initializer_list.hpp'],
     [('set_dims/resize', 'include/vif/core/vec.hpp'), ('nested initializer lists', 'include/vif/core/bits/initializer_list.hpp')], AI, AIN)
prop('P03', 'Element-wise operations require equal shapes and preserve them',
     'Every arithmetic, comparison, logical, compound or vectorised function applied to vectors or views either receives operands of identical shape (or scalars) or stops with an error, for operands of any size including empty ones. '
     'Its result has exactly the shape of its operands, and no element outside them is touched.',
     ['inputs', 'programs'], 'all operand shapes, every operator and vectorised function instantiated, lvalue, rvalue and view operands',
     'Tests combine a few equal-shaped vectors and hardly ever mismatched ones.',
     ['include/vif/core/vec.hpp', 'include/vif/core/bits/operators.hpp', 'include/vif/core/bits/vectorize.hpp', 'include/vif/math/base.hpp', 'include/vif/core/string_conversion.hpp'],
     [('dimension checks', 'include/vif/core/bits/operators.hpp'), ('vectorize macros', 'include/vif/core/bits/vectorize.hpp')], AI, AIN)
prop('P04', 'Array manipulation is memory-safe and returns documented shapes',
     'For every input, including empty and mismatched ones, the array utilities (generation, rearrangement, replication, concatenation, removal, selection, searching, sorting, set operations and index arithmetic) access only elements that exist, and reject arguments whose sizes, dimensions or indices are inconsistent. '
     'They accept every consistent input, and the result has the size and dimensions implied by the arguments.',
     ['inputs'], 'all array shapes, index values and element types instantiated',
     'Tests use small non-empty arrays with valid arguments.',
     ['include/vif/utility/bits/generic-rearrange.hpp', 'include/vif/utility/bits/generic-find.hpp', 'include/vif/utility/bits/generic-dims.hpp', 'include/vif/utility/bits/generic-sequences.hpp', 'include/vif/utility/bits/generic-indices.hpp'],
     [('argument checks', 'include/vif/utility/bits/')], AI, AIN)
prop('P05', 'Reductions, statistics and histograms are memory-safe on every input',
     'Sums, means, medians, percentiles, extrema, counts, norms, clipping, partial reductions along a dimension, running and binned statistics, histograms and random sampling access only elements that exist, for inputs of every shape including empty ones. '
     'Operations that have no meaning on empty data or on inputs of different sizes or out-of-range dimensions reject them, every consistent input is accepted, and results have the shape implied by the input (the reduced dimension removed, one entry per bin, one entry per element).',
     ['inputs'], 'all shapes and all values of the dimension, bin and seed arguments',
     'Tests reduce a few hand-written arrays.',
     ['include/vif/math/reduce.hpp', 'include/vif/math/histogram.hpp', 'include/vif/math/random.hpp'],
     [('vif_check preconditions', 'include/vif/math/reduce.hpp'), ('histogram bin checks', 'include/vif/math/histogram.hpp')], AI, AIN)
prop('P06', 'Interpolation, integration and transforms are memory-safe on every input',
     'Interpolation, integration, cumulation, Fourier transforms and convex hull functions access only elements that exist, whatever the number of points given. '
     'They reject coordinate and value arrays of different sizes and too few points, accept every consistent input, and return one value per requested position.',
     ['inputs'], 'all numbers of points and all shapes',
     'Tests interpolate a few regular tables.',
     ['include/vif/math/interpolate.hpp', 'include/vif/math/transform.hpp', 'include/vif/math/fourier.hpp', 'include/vif/math/convex_hull.hpp'],
     [('vif_check preconditions', 'include/vif/math/interpolate.hpp')], AI, AIN)
prop('P07', 'Matrix algebra and fitting check dimensions and never overrun',
     'Matrix products, transposition, diagonals, decompositions, inversion, linear solving and linear, polynomial and nonlinear fitting access only elements that exist, for matrices and data of any size. '
     'They reject operands whose dimensions are incompatible (inner dimensions, square matrices, data versus model sizes), and the results have the dimensions given by the algebra.',
     ['inputs'], 'all matrix and data dimensions',
     'Tests use a few 2x2 and 3x3 systems.',
     ['include/vif/math/matrix.hpp', 'include/vif/math/linfit.hpp', 'include/vif/math/mpfit.hpp', 'include/vif/math/optimize.hpp'],
     [('dimension checks', 'include/vif/math/matrix.hpp'), ('size checks of the fits', 'include/vif/math/linfit.hpp')], AI, AIN)
prop('P08', 'String and command-line utilities never read past their input',
     'Trimming, searching, replacing, splitting, padding, aligning, wrapping, matching, command-line handling and formatting functions access only existing characters and elements for every string, including empty strings and lists. '
     'Inputs of the documented form are accepted, and functions applied to lists of strings return one entry per input string.',
     ['inputs'], 'all strings, pattern lengths and list sizes',
     'Tests use a few short strings.',
     ['include/vif/utility/bits/string-base.hpp', 'include/vif/utility/bits/string-find-replace.hpp', 'include/vif/utility/bits/string-split.hpp', 'include/vif/utility/bits/string-format.hpp', 'include/vif/utility/argv.hpp', 'include/vif/utility/time.hpp', 'include/vif/utility/os.hpp'],
     [('position checks', 'include/vif/utility/bits/')], AI, AIN)
prop('P09', 'Astronomy routines check array shapes and never overrun',
     'Image operations (padding, cropping, shifting, recentering, stacking, masks, convolution), photometry, filter and spectrum functions, template fitting, cosmology grids, catalogue cross-matching and random sky positions access only pixels and elements that exist, for images, catalogues and tables of any size. '
     'They reject inputs whose sizes are inconsistent with each other, and results have the shape implied by the inputs.',
     ['inputs'], 'all image sizes, catalogue sizes, offsets and stamp sizes',
     'There are hardly any tests for this part; those that exist use one image or one table.',
     ['include/vif/astro/image.hpp', 'include/vif/astro/astro.hpp', 'include/vif/astro/qstack.hpp', 'include/vif/astro/qxmatch.hpp', 'include/vif/astro/template_fit.hpp'],
     [('vif_check preconditions', 'include/vif/astro/')], AI, AIN)
prop('P10', 'File reading and writing code never overruns its buffers',
     'Reading and writing tables, images, headers and file names accesses only existing rows, columns, characters and elements, whatever the file contains and whatever destination or source shape is supplied. '
     'Columns and images given for writing with inconsistent sizes are rejected.',
     ['inputs', 'configurations'], 'all table and image shapes, column lists, names and lines',
     'Tests round-trip a few small files.',
     ['include/vif/io/ascii.hpp', 'include/vif/io/fits/table.hpp', 'include/vif/io/fits/image.hpp', 'include/vif/io/fits/base.hpp', 'include/vif/io/filesystem.hpp'],
     [('row/column checks', 'include/vif/io/ascii.hpp'), ('dimension checks', 'include/vif/io/fits/')], AI, AIN)
LW = 'abstract interpretation of obligation programs: client programs of the public interface with arbitrary contents, value numbering, order theory and rational normal forms, by partition of small shapes'
LWN = ('Each law is decided for arbitrary element values on every partition of small shapes (each dimension 0 to 3); a violation is printed only for a feasible path with a concrete witness. '
       'Shapes beyond the partitions are not decided; floating-point laws hold in real arithmetic. Trusts clang, the exporter, the library models in vx/summ.py.')
prop('P11', 'Operations on overlapping vectors and views read their operands first',
     'Assigning, or applying a compound operation, to a vector or view from an expression that refers to the same elements (itself, a view of itself, one of its own elements as a scalar, a reordered or constant view of it) gives the result obtained from a copy of the operands made beforehand. '
     'The same holds for appending a vector to itself, adding one of its own elements to a vector, swapping rows through views, and building a vector from a view of it, and a copy never changes when the original does.',
     ['inputs', 'programs'], 'all contents, every overlap pattern of the listed operations on small shapes',
     'Overlap only matters for particular combinations of operands and orders of evaluation that tests do not enumerate.',
     ['include/vif/core/vec.hpp', 'include/vif/core/bits/operators.hpp', 'include/vif/utility/bits/generic-rearrange.hpp'],
     [('aliasing checks of assignments', 'include/vif/core/vec.hpp')], LW, LWN)
prop('P12', 'Vectors and views store and return exactly the values put in them',
     'Every value written to a vector through construction, lists, assignment, conversion, element, row, column, range, index-list or view access, iteration, or insertion at the end is read back unchanged at the same row-major position, and no other element changes. '
     'Views read and write the vector they were made from, also through views of views; copies, moves, conversions, resizing, swapping and clearing keep, transfer or drop the elements as their name says; checked and unchecked, constant and mutable access agree.',
     ['inputs', 'histories'], 'all contents, small shapes in one to three dimensions, each kind of access',
     'Tests write and read a few constants.',
     ['include/vif/core/vec.hpp', 'include/vif/core/bits/access.hpp', 'include/vif/core/bits/iterator.hpp', 'include/vif/core/bits/initializer_list.hpp', 'include/vif/core/range.hpp'],
     [('storage and views', 'include/vif/core/vec.hpp'), ('index resolution', 'include/vif/core/bits/access.hpp')], LW, LWN)
prop('P13', 'Element-wise operations compute each element from its own operands',
     'For arithmetic, comparison, logical, compound and vectorised mathematical operations on vectors, views, temporaries and scalars in either order, element i of the result is the operation applied to elements i of the operands, in the order written. '
     'Operands that are not the destination of the operation are left unchanged.',
     ['inputs', 'programs'], 'all contents; every operator and vectorised function instantiated, for each category of operands',
     'Tests evaluate each operator on one pair of constants and rarely the reversed, temporary or view forms.',
     ['include/vif/core/bits/operators.hpp', 'include/vif/core/bits/vectorize.hpp', 'include/vif/core/vec.hpp', 'include/vif/math/base.hpp'],
     [('operator macros', 'include/vif/core/bits/operators.hpp'), ('vectorize macros', 'include/vif/core/bits/vectorize.hpp')], LW, LWN)
prop('P14', 'Array utilities return exactly the elements they promise',
     'Reversing, rotating, transposing, replicating, flattening, reshaping, removing, appending and prepending put every element of their inputs at the documented place and keep the others in order; sorting returns a permutation that orders the data. '
     'Selecting, finding the first or last, complements, membership, bounds in sorted data, unique values, matching, intersections and unions return exactly the positions or values satisfying their definition; counting sequences and conversions between flat and multidimensional positions are exact inverses.',
     ['inputs'], 'all contents (including repeated values) on small shapes',
     'Tests check one hand-written example per function.',
     ['include/vif/utility/bits/generic-rearrange.hpp', 'include/vif/utility/bits/generic-find.hpp', 'include/vif/utility/bits/generic-sequences.hpp', 'include/vif/utility/bits/generic-indices.hpp'],
     [('rearrangement', 'include/vif/utility/bits/generic-rearrange.hpp'), ('searching', 'include/vif/utility/bits/generic-find.hpp')], LW, LWN)
prop('P15', 'Reductions, order statistics and histograms return their definition',
     'Totals, counts, fractions, means, weighted and optimal means, RMS, standard deviations, extrema with their positions, medians, percentiles, median deviations, partial reductions along a dimension, cumulated sums and trapezoidal integrals equal their textbook definition on the valid elements, and inputs not modified in place are left unchanged. '
     'A value belongs to exactly one bin of a partition into bins (lower bound included, upper excluded), and histograms count, or sum the weights of, exactly the members of each bin.',
     ['inputs'], 'all contents, including invalid numbers where they are documented to be skipped, on small shapes',
     'Tests reduce a few arrays; the value depends on order, ties, parity of the size and invalid entries.',
     ['include/vif/math/reduce.hpp', 'include/vif/math/histogram.hpp'],
     [('reductions', 'include/vif/math/reduce.hpp'), ('bins and histograms', 'include/vif/math/histogram.hpp')], LW, LWN)
prop('P16', 'Interpolation passes through its data and follows its definition',
     'Linear interpolation returns the tabulated value at every tabulated position, the value of the straight line through the two neighbouring points between positions, and of the nearest segment outside of the table; it reproduces straight lines exactly, and interpolating many positions equals interpolating each. '
     'Cubic splines pass through their points and reproduce straight lines, bilinear interpolation returns the pixels at integer positions and their weighted mean in between, and regular grids have the requested ends, size and step.',
     ['inputs'], 'all tables of 2 or 3 strictly increasing positions with arbitrary values, all positions; maps up to 3x3',
     'Tests evaluate a few positions of one table.',
     ['include/vif/math/interpolate.hpp', 'include/vif/utility/bits/generic-sequences.hpp'],
     [('interpolation', 'include/vif/math/interpolate.hpp')], LW, LWN)
prop('P17', 'Matrix algebra computes the mathematical result',
     'Matrix-matrix, matrix-vector and vector-matrix products, transposition, sums, scaling, negation, compound updates, diagonals, identity, scale, translation and rotation matrices and symmetrisation give the mathematically defined entries, and leave their operands unchanged. '
     'The built-in LU and Cholesky decompositions of small matrices factorise, solve, invert and give the determinant of the matrix they were given, with and without row exchanges, and report singular matrices.',
     ['inputs'], 'all entries; matrices up to 3x3 for products, 2x2 for decompositions',
     'Tests use one system of equations.',
     ['include/vif/math/matrix.hpp', 'include/vif/math/bits/matrix-types.hpp', 'include/vif/math/bits/matrix-functions.hpp'],
     [('operators', 'include/vif/math/bits/matrix-types.hpp'), ('decompositions', 'include/vif/math/bits/matrix-functions.hpp')], LW, LWN)
prop('P18', 'Image operations move, crop, pad and convolve pixels exactly',
     'Enlarging, shrinking, extracting a region (also partly or fully outside of the image), flipping, cyclic shifting, whole-pixel translation and recentering place each input pixel at its documented position and fill every other pixel with the given default. '
     'Direct convolution equals its definition with pixels outside of the image counted as zero, sliding boxes contain exactly the pixels within their half size that exist, and mask inflation marks exactly the pixels within the given distance.',
     ['inputs'], 'all pixel values, images up to 3x3, kernels up to 3x3 and 5x1, offsets beyond the image size',
     'Hardly any test covers images; offsets at the borders are never exercised.',
     ['include/vif/astro/image.hpp', 'include/vif/core/bits/iterator.hpp'],
     [('image functions', 'include/vif/astro/image.hpp')], LW, LWN)
prop('P19', 'An error reported by the FITS library is never lost',
     'Whenever a call to the FITS library reports a failure, the public operation that made the call examines it before returning and either raises an error or returns its documented failure value, on every path. '
     'No later call overwrites or resets the status of an earlier one before it was examined.',
     ['crash-points', 'configurations'], 'every call site of the FITS library and every path from it to the end of the public function',
     'A failure has to be injected at each call on each path.',
     ['include/vif/io/fits/base.hpp', 'include/vif/io/fits/image.hpp', 'include/vif/io/fits/table.hpp', 'include/vif/astro/qstack.hpp'],
     [('status checks', 'include/vif/io/fits/base.hpp')],
     'typestate dataflow (status set / examined) over every path, interprocedural summaries', 'Every FITS library call site of the instantiated code; trusts clang and the exporter. Values written by the FITS library itself are not modelled.')
prop('P20', 'Ill-typed uses are rejected by the compiler and legal ones accepted',
     'Programs that mix vectors of different dimensions, index with the wrong number or kind of indices, write through constant vectors or views, convert implicitly between unrelated element types or between numbers and masks, or pass non-vectors where vectors are required do not compile. '
     'Their closest legal twins compile, and the element type and number of dimensions of each result are the documented ones.',
     ['programs'], 'the listed witness programs, each with its legal twin',
     'A unit test cannot contain a program that does not compile.',
     ['include/vif/core/vec.hpp', 'include/vif/core/meta.hpp', 'include/vif/core/bits/operators.hpp', 'include/vif/core/bits/access.hpp'],
     [('SFINAE constraints and static assertions', 'include/vif/core/')],
     'compile-fail witnesses with accepted twins and static type assertions', 'Decided by the compiler front end for every listed witness; programs beyond the list are not covered.')
prop('P21', 'Work shared between threads is done exactly once and without races',
     'A parallel loop calls its function exactly once for each index of its range, for every number of threads and every chunk size, and returns only when all threads are done. '
     'The queue between a producer and a consumer thread delivers every element once and in order, and a worker runs every job it was given before it stops, under every interleaving. '
     'State shared by running threads is only touched atomically or under its lock, and libraries that do not support concurrent calls are only called under one common lock.',
     ['schedules', 'inputs'], 'every interleaving of producer, consumer, owner and worker threads; every range, thread count and chunk size',
     'A race shows up in one interleaving out of millions; tests run a few and there is no test of these classes.',
     ['include/vif/utility/bits/thread-queue.hpp', 'include/vif/utility/bits/thread-worker.hpp', 'include/vif/utility/bits/thread-worker-pool.hpp', 'include/vif/utility/bits/thread-parallel-for.hpp', 'include/vif/math/fourier.hpp', 'include/vif/astro/wcs.hpp', 'include/vif/astro/qxmatch.hpp'],
     [('queue publication order', 'include/vif/utility/bits/thread-queue.hpp'), ('chunk lock', 'include/vif/utility/bits/thread-parallel-for.hpp'), ('planner lock', 'include/vif/math/fourier.hpp')],
     'lockset and typestate dataflow with inlining (publication order, lock discipline, stop/drain/join protocol) plus abstract interpretation of client programs under the two extreme schedules',
     'The ordering rules cover every interleaving of the analysed classes; the exactly-once laws are interpreted for ranges of up to 6 indices, up to 4 threads and the earliest and latest schedule. Lock-freedom and fairness are not addressed.')
prop('P22', 'String functions return exactly the text they promise',
     'Trimming, replacing, splitting, cutting, joining, aligning, wrapping, upper and lower case, prefix and suffix tests and removals, searching and distance give the documented text for every string, including empty ones, strings without a match, and patterns longer than the string. '
     'Applied to arrays of strings they treat each element independently and do not modify their arguments.',
     ['inputs'], 'strings of up to 4 arbitrary characters, patterns of up to 2 characters, every position and width of that range; some laws on fixed longer texts',
     'Tests use a few sentences; the corner cases are the empty string, repeated and overlapping matches and matches at either end.',
     ['include/vif/utility/string.hpp', 'include/vif/utility/bits/string-base.hpp', 'include/vif/utility/bits/string-find-replace.hpp', 'include/vif/utility/bits/string-split.hpp', 'include/vif/utility/bits/string-format.hpp'],
     [('string functions', 'include/vif/utility/string.hpp')], LW, LWN)
prop('P23', 'Linear fits return the weighted least-squares solution',
     'The fitted coefficients make the weighted residuals orthogonal to every model, the covariance is the inverse of the normal matrix, the errors are the roots of its diagonal, and the chi-squared is that of the returned solution. '
     'All ways of giving the models (separate arguments, packed array, prepared batch, batch updated with new data) agree, inputs are not modified, and a singular problem or one that did not converge is reported as failed.',
     ['inputs'], 'all finite data, errors and models; up to 2 free coefficients and 3 or 4 points',
     'Tests fit one line.',
     ['include/vif/math/linfit.hpp', 'include/vif/math/bits/matrix-functions.hpp'],
     [('linear fits', 'include/vif/math/linfit.hpp')], LW, LWN)
prop('P24', 'Sky coordinates, fluxes and magnitudes follow their defining formulas',
     'Angular distances obey the haversine formula, moving and normalising coordinates gives the same point of the sky, and conversions between fluxes, magnitudes, luminosities and units are exact inverses with the documented constants. '
     'Array versions equal the scalar ones element by element, the flux of a spectrum through a filter is the integral of their product over the filter (and not-a-number if the spectrum does not cover it), and subtracting a source changes exactly the pixels under its profile.',
     ['inputs'], 'all values; arrays up to 3 elements, images up to 3x3, five relative layouts of filter and spectrum grids',
     'Few of these functions have a test, and each with one value.',
     ['include/vif/astro/astro.hpp'],
     [('coordinates, fluxes, filters and sources', 'include/vif/astro/astro.hpp')], LW, LWN)
prop('P25', 'Segmentation maps and their catalogs describe the image exactly',
     'Segmenting a map labels exactly its non-zero pixels, gives touching pixels the same label and separate groups different ones, numbers the groups consecutively from the requested first label, and reports for each the exact number of pixels, first pixel and centre; groups below the minimum area are removed from both the map and the catalog. '
     'Visiting the segments lists each of their pixels once, deblended sources report the area, flux and barycentre of exactly the pixels they are given, and growing segments assigns each pixel to a nearest one. '
     'Circular masks give each pixel the fraction of its corners inside of the circle.',
     ['inputs'], 'all pixel values on maps of 2x2, 2x3, 1x4 and 4x1; listed layouts for deblending (up to 2x3), growth (up to 3x3) and masks',
     'No test calls any of these functions.',
     ['include/vif/astro/image.hpp'],
     [('segmentation and masks', 'include/vif/astro/image.hpp')], LW, LWN)
prop('P26', 'File names split into directory, name and extension without loss',
     'The directory and the base name of a path joined together give the path, the base name never contains a separator (a trailing one is ignored, wherever the directory is), and the directory always ends with one. '
     'The extension starts at the last dot, and removing it and appending it again gives the original name. '
     'Turning a name into a directory name is idempotent, trims blanks and leaves the empty name empty; a closed directory listing yields no more files.',
     ['inputs'], 'all characters in names of up to 3 characters, alone and inside of fixed directories',
     'A test splits three paths.',
     ['include/vif/io/filesystem.hpp'],
     [('file names', 'include/vif/io/filesystem.hpp')], LW, LWN)
prop('P27', 'External resources are released exactly once',
     'Every Fourier plan, open directory, FITS file, compiled regular expression, minimiser and temporary buffer that an operation acquires is released on every path on which the operation returns, never twice, never used afterwards, and with the function that matches its acquisition. '
     'Objects that keep a resource release it when they are destroyed, hand it over with all their contents when they are moved, forget it when they release it earlier, and never replace it while it is still held.',
     ['histories', 'crash-points'], 'every acquisition and release in the instantiated code and every path between them; paths that stop the program with an error are excluded',
     'A leak or a second release has no effect on the results that tests compare.',
     ['include/vif/io/filesystem.hpp', 'include/vif/io/fits/base.hpp', 'include/vif/utility/bits/string-regex.hpp', 'include/vif/math/fourier.hpp', 'include/vif/math/optimize.hpp', 'include/vif/astro/wcs.hpp', 'include/vif/astro/image.hpp', 'include/vif/io/fits/table.hpp', 'include/vif/astro/qstack.hpp'],
     [('acquisitions and releases', 'include/vif/')],
     'typestate dataflow (held / released) over every path, interprocedural', 'Every acquiring and releasing library call of the instantiated code; the table of those functions is trusted, elements of pointer arrays and list nodes are not tracked.')
prop('P28', 'Convex hulls enclose exactly the region they describe',
     'The hull built from a set of points is closed, strictly convex, counter-clockwise, made only of points of the set, and contains all of them, whatever their order, repetitions or alignment. '
     'A point is inside of a hull, given in either orientation, exactly if it is on the inner side of all its edges, and the signed distance is that to the closest edge or corner, negative outside; array versions agree with the scalar ones, and open hulls or mismatched coordinates are rejected.',
     ['inputs'], 'points on grids of half units around a rectangle and a triangle; sets of 3 to 6 points on grids up to 5x5',
     'Tests build one hull.',
     ['include/vif/math/convex_hull.hpp'],
     [('convex hulls', 'include/vif/math/convex_hull.hpp')], LW, LWN)
NAR = 'include/vif/'
prop('P40', 'What is written to a file is read back unchanged',
     'Every array, table column and keyword written to a FITS or ASCII file is read back with the same shape, type and values, except for the precision of formatted numbers.',
     ['inputs', 'histories'], 'all values, shapes and column layouts', 'Tests write a few tables.',
     [NAR + 'io/fits/table.hpp', NAR + 'io/fits/image.hpp', NAR + 'io/ascii.hpp'], [('FITS and ASCII readers and writers', NAR + 'io/')],
     na='Equality of file contents depends on the behaviour of the C FITS library and of stream formatting, which are not part of the sources analysed; no static argument in reach relates the bytes written to the values read back. Memory safety, shapes and error handling of this code are decided by P10 and P19.')
prop('P41', 'Numerical routines are accurate',
     'Interpolations, integrations, minimisations, Fourier transforms, decompositions and cosmological distances agree with the exact mathematical value to within their documented tolerance.',
     ['inputs'], 'all finite inputs', 'Tests compare a few values.',
     [NAR + 'math/integrate.hpp', NAR + 'math/mpfit.hpp', NAR + 'math/linfit.hpp', NAR + 'astro/cosmology.hpp'], [('numerical algorithms', NAR + 'math/')],
     na='Bounds on rounding and truncation errors over all inputs need error analysis of iterative floating-point code and of LAPACK, FFTW and GSL; static analysis of these sources cannot bound them. Identities in exact real arithmetic are decided by P15 to P18 instead.')
prop('P42', 'Cross-matching finds the true nearest neighbours',
     'For every pair of catalogs, the cross-match returns the n nearest neighbours of each source by angular distance, independently of the number of threads and of the bucket sizes.',
     ['inputs', 'schedules'], 'all catalogs', 'Tests match small catalogs.',
     [NAR + 'astro/qxmatch.hpp'], [('bucket search', NAR + 'astro/qxmatch.hpp')],
     na='The stopping criterion compares accumulated floating-point bucket geometry with trigonometric distances; proving it never stops early needs a global geometric argument beyond static analysis. Its memory safety is decided by P09 and its thread discipline by P21.')
