prop("C08", "FFT grids transform, invert and pad exactly for every size",
     "The FFT size chosen for n is the smallest product of powers of 2, 3, 5 and 7 that is at least n (and even when asked), 1D transforms and convolutions equal the DFT and the convolution of the data padded as requested, and FFTGrid2D/FFTGrid3D (float and double) give the half-spectrum DFT of their real grid and back, unnormalised both ways or scaled as documented, under every history of fills, transforms, reads and writes. Values, padding (linear back to the first value where asked) and sizes read back are those written.",
     ["inputs", "histories"], "all sizes, paddings, contents and operation sequences",
     "No test exercises the FFT grids; the suite only sees them through a few simulated fields.",
     ["src/nrlib/fft/fft.cpp", "src/nrlib/fft/fft.hpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp"],
     [("size search", "FindNewSizeWithPadding"), ("padding of 1D data", "ComputeFFT1D"), ("in-place real/complex layout", "FFTGrid2D / FFTGrid3D")],
     ["NRLib::ComputeFFT1D", "NRLib::FFTGrid2D", "NRLib::FFTGrid3D"],
     "property-based and stateful testing against numpy.fft",
     "Sizes up to a few thousand in 1D, 40 per axis in 2D/3D.")

prop("C09", "Grid containers behave as n-dimensional arrays under every history",
     "Grid2D, Grid, Grid4D, Grid5D and Grid2DGeneral hold, after any sequence of element writes, resizes, assignments, copies, swaps and extensions in k, exactly the cells of a Fortran-ordered array with the same history, with matching sizes and bounds. Index and subscripts map to each other one-to-one in storage order, and minimum, maximum, average and log transform treat the missing value as documented.",
     ["inputs", "histories"], "all shapes, contents and operation sequences",
     "No test exercises the grid classes directly.",
     ["src/nrlib/grid/grid.hpp", "src/nrlib/grid/grid2d.hpp", "src/nrlib/grid/grid2dgeneral.hpp", "src/nrlib/grid/grid4d.hpp", "src/nrlib/grid/grid5d.hpp"],
     [("index arithmetic", "GetIndex / GetIJK"), ("resizing", "Resize / ResizeK"), ("missing values", "FindMin / FindMax / GetAvgMinMax")],
     ["NRLib::Grid*"],
     "model-based stateful property testing against numpy arrays",
     "Histories of up to 14 operations on two grids, extents up to 9.")

prop("C10", "Random generators are reproducible independent dSFMT streams",
     "After seeding, the global Random and every RandomGenerator object produce, for any interleaving of uniform [0,1), open uniform (0,1), 32-bit and normal draws, exactly the dSFMT-19937 stream of their own seed (normal draws by Marsaglia-Bray), independently of each other, and copies continue the stream of the original. GetStartSeed is the seed last set (an error before any), Initialize(file) seeds from a readable file and otherwise raises and changes nothing, and WriteSeedToFile writes the next 32-bit draw to the seed file in use, if any. The array functions of the generator behind give the same stream, from a seed or an array of keys, and single draws continue it.",
     ["histories", "inputs"], "all sequences of operations, seeds and file contents",
     "The tests seed once and draw through simulate only.",
     ["src/nrlib/random/random.cpp", "src/nrlib/random/random.hpp", "src/nrlib/random/randomgenerator.cpp", "src/nrlib/random/randomgenerator.hpp", "src/nrlib/random/dSFMT.cpp", "src/nrlib/random/dSFMT.h"],
     [("Mersenne twister", "dSFMT.cpp"), ("normal variates", "Norm01"), ("seed file", "Random::Initialize(file) / WriteSeedToFile")],
     ["NRLib::Random", "NRLib::RandomGenerator"],
     "model-based stateful property testing against an independent dSFMT implementation",
     "Histories of up to 40 operations and some 10^4 draws, each in a fresh process.")

prop("C11", "Distributions and special functions agree with their definitions",
     "For all parameters, Pdf, Cdf and Quantile of Normal, LogNormal, Triangular, Uniform, SplitUniform, ChiSquared, Delta, Fractal, Binomial, Poisson and GeneralDiscrete are those of the distribution, those of Beta and BetaWithEndMass those of its discretisation in nx equal bins weighted by the density at the bin centre, and erf, erfc, their inverses, gammln, gammp, invgammp and bico have their mathematical values and raise outside their domain. Draws from the global or an own generator are the quantile of the next uniform number (mean plus standard deviation times the next normal one for Normal, exactly distributed for Poisson means of 10 and more), also when truncated, and SetParameters and Clone give the same as a new object.",
     ["inputs", "configurations"], "all parameters, points, probabilities and seeds",
     "No test exercises the distributions.",
     ["src/nrlib/random/normal.cpp", "src/nrlib/random/normal.hpp", "src/nrlib/random/lognormal.hpp", "src/nrlib/random/beta.cpp", "src/nrlib/random/beta.hpp", "src/nrlib/random/betawithendmass.hpp", "src/nrlib/random/triangular.hpp", "src/nrlib/random/uniform.hpp", "src/nrlib/random/splituniform.hpp", "src/nrlib/random/chisquared.hpp", "src/nrlib/random/binomial.cpp", "src/nrlib/random/poisson.cpp", "src/nrlib/random/fractal.cpp", "src/nrlib/random/fractal.hpp", "src/nrlib/random/generaldiscrete.hpp", "src/nrlib/random/functions.cpp", "src/nrlib/random/gamma.cpp"],
     [("rational approximations", "erf_imp / erf_inv_imp"), ("incomplete gamma", "gammp / invgammp"), ("tables", "Beta::ComputePdfAndCdf / Binomial::Binomial"), ("rejection", "Poisson::Draw")],
     ["NRLib::Distribution subclasses", "NRLib::erf etc."],
     "property-based testing against scipy and the reference stream; chi-square for Poisson",
     "Relative accuracy 1e-7 to 1e-12; parameters in moderate ranges stated in the check.")

prop("C12", "Variograms, covariance grids and C++ field simulation follow their state",
     "After any history of setters, limits, rotations and clones, a Variogram returns the correlation, covariance and variogram of its current type, ranges, angles, power and standard deviation (rejected ranges change nothing, unknown types are refused), FFTCovGrid1D/2D/3D tabulate exactly that covariance on their lags and CovGrid2D the correlation. Simulate1D/2D/3DGaussianField give for any number of fields the convolution of the generator's next normal numbers with that covariance, from the given or the global generator.",
     ["inputs", "histories"], "all variogram types, parameters, operation sequences, grids and seeds",
     "The tests compare a few fields and correlation values for a handful of variograms built in one step.",
     ["src/nrlib/variogram/variogram.cpp", "src/nrlib/variogram/variogram.hpp", "src/nrlib/variogram/variogramtypes.cpp", "src/nrlib/variogram/variogramtypes.hpp", "src/nrlib/variogram/fftcovgrid.cpp", "src/nrlib/variogram/fftcovgrid.hpp", "src/nrlib/variogram/covgrid2d.cpp", "src/nrlib/variogram/covgrid2d.hpp", "src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/variogram/gaussianfield.hpp"],
     [("rotation matrix upkeep", "Variogram::SetAngles / Rotate / SetAnisotropyMatrix"), ("lag tables", "FFTCovGrid*::GetCov"), ("field simulation", "Simulate*DGaussianField")],
     ["NRLib::Variogram", "NRLib::FFTCovGrid*", "NRLib::CovGrid2D", "NRLib::Simulate*DGaussianField"],
     "model-based stateful and differential property testing against numpy reference formulas",
     "Histories of up to a dozen operations, grids up to some tens of cells per axis.")

prop("C13", "Statistics, conditional normal distributions and kriging are exact",
     "Count, extremes, sum, mean, variance and covariance (with and without missing values) are those of the data and raise or return 0 for no data as documented; MultiNormal draws mean plus Cholesky factor times the generator's normal numbers, also after SetParameters, and its Potential is minus the log density. Conditional means and covariances (1D, and 2D with secondary or nearly equal observations), Posterior1DNormal and kriging in 1D and 2D (nodal, index and continuous data; with krig_all or a neighbourhood covering all data) solve the normal equations, and local kriging honours every datum, leaves nodes beyond the range of all data at the trend and returns residuals on request.",
     ["inputs", "configurations"], "all data sets, variograms, grids and seeds",
     "The kriging tests use constant observations and loose tolerances; nothing else in the module is tested.",
     ["src/nrlib/statistics/statistics.hpp", "src/nrlib/statistics/multinormal.cpp", "src/nrlib/statistics/multinormal.hpp", "src/nrlib/statistics/posteriormultinormal.cpp", "src/nrlib/statistics/posteriormultinormal.hpp", "src/nrlib/statistics/kriging.cpp", "src/nrlib/statistics/kriging.hpp", "src/nrlib/statistics/nodalkrigingdata2d.cpp", "src/nrlib/statistics/continuouskrigingdata2d.cpp", "src/nrlib/math/mathutility.hpp", "src/nrlib/math/constants.cpp"],
     [("block neighbourhoods", "Kriging::FindOptimalDataInBlock"), ("normal equations", "CondDistrMultiNormalCore / Kriging::Krig2DBlock"), ("elimination of equal observations", "EliminateLargeCorr")],
     ["NRLib::Mean etc.", "NRLib::MultiNormal", "NRLib::CondDistrMultiNormal", "NRLib::Kriging"],
     "property-based testing against numpy normal equations and exact sums",
     "Up to 12 observations, or 201-260 on 2D grids of up to 26x26 nodes; condition numbers below 1e5 (2D) and 1e8 (1D).")

prop("C14", "Matrix solvers, eigenvectors and matrix files are correct",
     "For all well-conditioned matrices the triangular, Cholesky (real, matrix, complex) and LU solvers and inverses solve their system without changing the matrix where it is const, factorisation multiplies back to the matrix, and singular or not positive definite input raises. Eigenvalues and normalised eigenvectors satisfy their equation in all variants, Sort3x3 orders them together, and matrices and vectors written to ASCII or binary files read back the same while files of another size raise.",
     ["inputs"], "all matrices, right-hand sides and file sizes",
     "No test exercises the linear algebra or its files.",
     ["src/nrlib/flens/nrlib_flens.cpp", "src/nrlib/flens/nrlib_flens.hpp"],
     [("LAPACK wrappers", "CholeskySolve / Invert / ComputeEigenVectors*"), ("file formats", "WriteMatrixToFile / ReadMatrixFromFile")],
     ["NRLib linear algebra functions", "matrix files"],
     "property-based testing against numpy and by defining equations; round trips",
     "Dimensions up to 7; condition numbers below 1e6 for general inverses.")

_IO = "src/nrlib/iotools/"

prop("C15", "Binary files, BigFile and file functions keep the data they are given",
     "Short, int, float, double and IBM float values, single or in arrays, in either byte order, to a stream or a BigFile, are written as exactly their standard encoding (IBM mantissas truncated, for normal finite values) and after any sequence of writes, overwrites and seeks read back the same, while reading past the end raises. OpenRead, OpenWrite, CopyFile, RemoveFile, CreateDirIfNotExists, FileExists and FindFileSize act on files as documented, and an operation that is refused changes nothing.",
     ["inputs", "histories"], "all values, byte orders, positions, operation sequences and file contents",
     "The tests write and read a few fixed values.",
     [_IO + "fileio.cpp", _IO + "fileio.hpp", _IO + "bigfile.cpp", _IO + "bigfile.hpp"],
     [("byte order and IBM conversion", "fileio.cpp WriteIEEE*/ReadIBM* helpers"), ("64-bit file positions", "BigFile"), ("file operations", "CopyFile / OpenWrite")],
     ["NRLib::WriteBinary*", "NRLib::ReadBinary*", "NRLib::BigFile", "file functions"],
     "model-based stateful property testing against struct-encoded byte arrays and a file-system model",
     "Files up to some kilobytes, and sparse positions beyond 4 GB for BigFile.")

prop("C16", "Text reading, parsing and string functions are correct for any text",
     "For any text, reading tokens, quoted tokens, numbers, arrays and lines from streams or files, skipping comments, and parsing strings give exactly the tokens and values in it with the right line numbers, and raise on wrong types, too few elements or end of file. Substitute, Chomp, Uppercase, tokenising, path functions, tabular files, serialisation round trips and grid file type recognition do for every string what their documentation says.",
     ["inputs"], "all texts, separators, types and files",
     "No test exercises text parsing.",
     [_IO + "fileio.cpp", _IO + "fileio.hpp", _IO + "stringtools.cpp", _IO + "stringtools.hpp", _IO + "tabularfile.cpp", _IO + "tabularfile.hpp", _IO + "serialize.cpp", _IO + "serialize.hpp"],
     [("tokeniser", "ReadNextToken / GetTokens / GetQuotedTokens"), ("fast arrays", "ParseAsciiArrayFast / ReadAsciiArrayFast"), ("serialisation", "Serialize*/Deserialize*"), ("tabular files", "TabularFile::ReadFromFile")],
     ["NRLib::ReadNextToken etc.", "NRLib::ParseType", "NRLib::TabularFile", "NRLib::FindGridFileType"],
     "property-based testing against a Python reference tokeniser and round trips",
     "Generated texts of up to some hundred characters over letters, digits, quotes, comments and white space.")

prop("C17", "Log messages reach exactly the logs that ask for them",
     "After any sequence of setting up file, stream and screen logs with levels and phases, every message (plain or printf-formatted, of any length) goes once and in order to exactly the logs whose level includes it, with the prefix of its level, and is counted per level; a message of a phase goes by that phase's level where the log has one. While buffering is on, a log that is added also gets the earlier buffered messages it asks for, and headers and progress bars on the screen log have the documented layout.",
     ["histories", "inputs"], "all sequences of log set-up, phase and message operations",
     "No test exercises logging.",
     ["src/nrlib/iotools/logkit.cpp", "src/nrlib/iotools/logkit.hpp", "src/nrlib/iotools/logstream.cpp", "src/nrlib/iotools/logstream.hpp"],
     [("level and phase masks", "LogStream::LogMessage"), ("buffering", "LogKit::DumpBuffer"), ("formatted messages", "LogKit::LogFormatted")],
     ["NRLib::LogKit", "NRLib::LogStream"],
     "model-based stateful property testing of log histories",
     "Histories of up to 16 operations, one thread.")

_SU = "src/nrlib/surface/"
prop("C18", "Surfaces interpolate, combine and read and write as their node grids",
     "After any sequence of edits, arithmetic, resizing, moving, rotating, swapping and combining with non-conform surfaces, a regular or rotated surface has exactly the nodes, positions, extent, indices, statistics and bilinear z values (missing nodes left out, missing outside) of its node grid, and resampling gives the values at the new nodes. Surfaces written as STORM binary or IRAP classic files read back the same to the precision of the format, Sgri files read as written, and files of unknown kind, wrong size, wrong labels or inconsistent header raise.",
     ["inputs", "histories"], "all grids, angles, missing values, points, operation sequences and files",
     "No test exercises surfaces.",
     [_SU + "regularsurface.hpp", _SU + "regularsurfacerotated.hpp", _SU + "surface.hpp", _SU + "surfaceio.hpp", _SU + "surfaceio.cpp"],
     [("bilinear interpolation with missing corners", "RegularSurface::GetZ / GetZInside"), ("rotation", "RegularSurfaceRotated::GlobalToLocalCoord"), ("file formats", "ReadStormBinarySurf / ReadIrapClassicAsciiSurf / ReadSgriSurf")],
     ["NRLib::RegularSurface", "NRLib::RegularSurfaceRotated", "NRLib::ConstantSurface", "surface files"],
     "model-based stateful property testing against numpy grids; file round trips and corrupted files",
     "Grids up to 7x7, histories of up to 9 operations; z at grid lines within 1e-7 of a cell may be that of either side.")

_GE = "src/nrlib/geometry/"
prop("C19", "Geometric constructions satisfy their defining equations",
     "Vector operations on points, and projections, distances, sides, crossings and overlaps of segments, rays, infinite lines, planes, triangles, rotated boxes and bilinear patches are, for all positions, those of the exact objects: returned points lie on both objects and no closer ones exist. Polygons report their extent, circumference, orientation, convexity, tangents, smallest enclosing rectangle and inside points, and become their hull when made convex; linear and natural spline interpolation and chains of transformations agree with their definition.",
     ["inputs"], "all coordinates, line kinds, orders of points and operation chains",
     "The tests check a few lines, one box and one set of knots.",
     [_GE + x for x in ("point.hpp", "point.cpp", "line.hpp", "line.cpp", "plane.hpp", "plane.cpp", "triangle.hpp", "triangle.cpp", "polygon.hpp", "polygon.cpp", "box.hpp", "box.cpp", "bilinearsurface.hpp", "bilinearsurface.cpp", "interpolation.cpp", "transformation.cpp")],
     [("clamped closest points", "Line::FindDistance"), ("rotating calipers", "Polygon::MinEnclosingRectangle"), ("quadratic in patch coordinates", "BilinearSurface::FindIntersections")],
     ["NRLib::Point", "NRLib::Line", "NRLib::Plane", "NRLib::Triangle", "NRLib::Polygon", "NRLib::Box", "NRLib::BilinearSurface", "NRLib::Interpolation", "NRLib::Transformation"],
     "property-based testing against rational arithmetic, exhaustive search, numpy and scipy",
     "Lines more than a degree from parallel or exactly parallel; patches that are graphs over the xy plane; results at rounding distance from an edge are not judged.")

_ST = "src/nrlib/stormgrid/"
prop("C20", "Volumes and STORM grids keep geometry, cells and values consistent",
     "After any sequence of changes to a volume's position, size, rotation and surfaces, its coordinate transforms are inverse to each other, points are inside exactly when they lie in the area between top and bottom, and it covers, fits and is described in files as its numbers say; cell indices, cell corners and centres, closest, interpolated and averaged values of a STORM grid agree with the cell that holds the point. STORM continuous, Sgri and facies grids written in binary or ASCII have the documented layout and read back the same, and files of another kind, cut short or inconsistent raise.",
     ["inputs", "histories"], "all volumes, surfaces, rotations, grids, missing cells, points and files",
     "No test exercises volumes or STORM grids.",
     ["src/nrlib/volume/volume.cpp", "src/nrlib/volume/volume.hpp", _ST + "stormcontgrid.cpp", _ST + "stormcontgrid.hpp", _ST + "stormfaciesgrid.cpp", _ST + "stormfaciesgrid.hpp"],
     [("coordinate transforms", "Volume::LocalToGlobalCoord / GlobalToLocalCoord"), ("depth to layer", "StormContGrid::FindIndex / FindZIndex"), ("file formats", "StormContGrid::ReadFromFile / WriteToFile, StormFaciesGrid")],
     ["NRLib::Volume", "NRLib::StormContGrid", "NRLib::StormFaciesGrid", "grid files"],
     "model-based stateful property testing against a numpy model; file round trips and corrupted files",
     "Grids up to some hundred cells; surfaces cover the volume where cells are looked up; points on cell edges are not judged.")

_WE = "src/nrlib/well/"
prop("C21", "Wells keep their logs, read and write their files and are blocked correctly",
     "After any sequence of adding, replacing, removing and changing logs, missing codes and properties, a well has exactly those logs and values and gives missing for what does not exist. RMS, LAS (plain, wrapped or with commas) and NORSAR files give every log, unit, name, code name, position and missing code in them, with NORSAR track and log files merged on measured depth, RMS and LAS wells written by the library read back the same, and files with missing, extra or wrong sections, records or values raise; blocking a well averages its values that are not missing per grid cell.",
     ["inputs", "histories"], "all logs, values, missing codes, files and grids",
     "The well tests need data files that are not run here, and read one file per format.",
     [_WE + x for x in ("well.cpp", "well.hpp", "rmswell.cpp", "laswell.cpp", "norsarwell.cpp", "welloperations.hpp")],
     [("depth merging", "NorsarWell::MergeLogs"), ("LAS sections and records", "LasWell::ReadHeader / ReadLogs / GetRecord"), ("RMS logs", "RMSWell::RMSWell / WriteToFile"), ("blocking", "BlockWell")],
     ["NRLib::Well", "NRLib::RMSWell", "NRLib::LasWell", "NRLib::NorsarWell", "NRLib::BlockWell"],
     "model-based stateful property testing; files generated and parsed by an independent writer and reader",
     "Up to five logs and six rows; names without white space in RMS and NORSAR files; blocked discrete values are only bounded by those in the cell.")

prop("C22", "Point sets keep points and parameters together, in memory, files and hulls",
     "After any sequence of adding, changing, resizing and erasing, every point of a point set keeps its own discrete, continuous and string parameters, and a point set of a surface has its nodes that are not missing. RMS internal points (with inactive points left out on request), Roxar text, general and Jason files are recognised and read with exactly the points and parameters in them and those written read back the same to the precision of the format, while wrong files raise; the convex hull is the smallest convex polygon around the points, counter-clockwise.",
     ["inputs", "histories"], "all point sets, parameters, strings, operation sequences and files",
     "No test exercises point sets.",
     ["src/nrlib/pointset/pointset.cpp", "src/nrlib/pointset/pointset.hpp"],
     [("file formats", "PointSet::FindFileType / ReadRMSInternalPoints / WriteInternalPoints"), ("Graham scan", "PointSet::GetConvexHull")],
     ["NRLib::PointSet", "point files"],
     "model-based stateful property testing; file round trips; exact hull in rational arithmetic",
     "Up to 150 points; directions closer than 2e-5 radians are not generated for hulls; OpenWorks files are not claimed.")

_WA = "src/nrlib/wavelet/"
prop("C23", "Wavelets stay centred on time zero when made, changed, written and read",
     "A wavelet's sample i lies at (i - n/2) times its interval: Ricker wavelets have the samples of the formula, and resizing, resampling to a multiple of the interval and scaling keep the value at each time that remains and give zero at new times. Jason, Syntool, Strata and Landmark files are recognised and read with time zero at the centre whatever the wavelet held before, Jason files written by the library read back the same to six digits, and files that are cut short, have too many samples or time zero outside raise.",
     ["inputs", "histories"], "all lengths, intervals, centres, operation sequences and files",
     "No test exercises wavelets.",
     [_WA + "wavelet.cpp", _WA + "wavelet.hpp", _WA + "waveletio.cpp"],
     [("centring", "Wavelet::Resize / Resample, FindWaveletLength / FindWaveletShift"), ("file formats", "Read*File / WriteJasonAsciiFile")],
     ["NRLib::Wavelet", "wavelet files"],
     "model-based stateful property testing; files generated by an independent writer",
     "Up to 12 samples in files; Syntool files count the time zero sample from 0, Strata files from 1.")

_SE = "src/nrlib/segy/"
prop("C24", "SEG-Y files are read and written with the right traces, headers and samples",
     "Reading a SEG-Y file, plain or concatenated, in any sample format, header layout, coordinate scaling and trace order, gives every trace with its position, inline, crossline, start time and samples, restricted to the samples and traces of a volume on request, at the right place of the regular grid, without the traces whose line numbers are out of step with the others, and the standard layouts are recognised. Traces, headers, textual headers and whole grids written by the library have the SEG-Y layout and give back those positions, lines and samples, and truncated files, lines outside the data and volumes outside the samples raise.",
     ["inputs"], "all surveys, layouts, sample formats and intervals, orders, missing traces, volumes and damaged files",
     "The segy tests only build a few geometries; none reads or writes a file.",
     [_SE + x for x in ("segy.cpp", "segy.hpp", "segytrace.cpp", "traceheader.cpp", "traceheader.hpp", "commonheaders.cpp")],
     [("trace reading", "SegY::ReadTrace / ReadAllTraces / GetTraceData"), ("header layouts", "TraceHeader::Read / Write, SegY::TraceHeaderOK"), ("writing", "SegY::WriteTrace / StoreTrace / WriteAllTracesToFile")],
     ["NRLib::SegY", "NRLib::TraceHeader", "SEG-Y files"],
     "property testing with an independent SEG-Y writer and parser; truncated and altered files",
     "Up to 25 traces of 40 samples; sample counts and intervals of 16 bits; layouts are recognised for regular surveys with 12.5 and 25 m spacing stored line by line.")

prop("C25", "SEG-Y geometries relate lines, positions and grid indices one to one",
     "In a SEG-Y geometry made from a grid, a surface, line directions or the traces of a survey in any order and with traces missing, every inline and crossline has one position and one grid cell, each found from the other, positions are inside exactly when they lie in one of the cells, and lines and positions outside or between the lines raise; a survey that is not quite at right angles is, on request, turned to right angles with line distances kept and corners moved as little as possible, or refused when traces end up more than half a cell away. A part of a geometry keeps the positions of its lines and has lines that exist in the data unless they must be interpolated, and the lines found for an area cover it within the data.",
     ["inputs"], "all survey sizes, orientations, numberings, trace orders, missing traces and requested parts",
     "The tests set up a handful of geometries.",
     [_SE + "segygeometry.cpp", _SE + "segygeometry.hpp"],
     [("geometry from traces", "SegyGeometry::SegyGeometry / SetupGeometry"), ("line numbering", "SegyGeometry::FindILXLGeometry"), ("lookup", "FindIndex / FindILXL / FindXYFromILXL"), ("parts", "GetILXLSubGeometry / findAreaILXL")],
     ["NRLib::SegyGeometry"],
     "property testing against an explicit model of the survey",
     "Inlines and crosslines at right angles, at most nine of each, coordinates within a centimetre of a regular survey; up to 24 lines at an angle up to 30 degrees from a right one when a regular geometry is asked for.")

_EC = "src/nrlib/eclipsegrid/"
prop("C26", "Eclipse grid files are read and written without loss",
     "Reading a GRDECL file, with the keywords after the size in any order, any layout of the numbers and comments, gives its dimensions, pillars, depths, active cells, parameters, faults and local refinements, skips what it does not use, and turns local coordinates into global ones by the map axes. Grids, parameters, faults and refinements written by the library, to one file or several, read back the same to the printed digits, transmissibility multipliers and connections are written for the right cells and faces, and files that are missing, cut short, have too few values, no size or wrong faults raise.",
     ["inputs"], "all grids, parameters, faults, refinements, layouts and damaged files",
     "No test reads or writes an Eclipse grid.",
     [_EC + x for x in ("eclipsegrid.cpp", "eclipsegrid.hpp", "eclipsegeometry.cpp", "eclipsetools.cpp", "eclipsetools.hpp", "eclipsefault.cpp", "eclipsecarfin.cpp", "eclipsetransmult.cpp")],
     [("reading", "EclipseGrid::ReadFromFile / ReadParameter"), ("numbers", "ReadParameterBuffer / ParseAsciiArrayFast"), ("writing", "EclipseGrid::WriteToFile / WriteParameter"), ("refinements", "EclipseCarFin")],
     ["NRLib::EclipseGrid", "NRLib::EclipseGeometry", "GRDECL files"],
     "property testing with an independent GRDECL writer and parser; truncated and altered files",
     "At most five cells in a direction; files have ACTNUM; names without blanks.")

prop("C27", "Corner-point grids place their cells, pillars, layers and faults consistently",
     "In an Eclipse corner-point grid every cell's corners lie on the pillars at its depths, its centres, faces, neighbours, top and bottom follow from them, and a point inside a cell of an active column is found in that cell while points above, below, between and beside the cells are found in none. Surfaces made from plane layers lie on the layer, the enclosing rectangle touches the pillars, the projected areas two cells have in common are those of the parts of their faces that touch, faults consist of the cell faces of their segments and meet where they share a pillar, and the grid of a group of refinements has the cells, activity and values of the refinements and pillars and depths interpolated from the grid.",
     ["inputs"], "all pillars, depths, gaps, faults, active cells, refinements and points",
     "No test exercises Eclipse grids.",
     [_EC + x for x in ("eclipsegeometry.cpp", "eclipsegeometry.hpp", "eclipsefault.cpp", "eclipsefault.hpp", "eclipsefaceindexer.cpp", "eclipsecarfin.cpp", "eclipsecarfingroup.cpp", "eclipsegrid.cpp")],
     [("point location", "EclipseGeometry::FindIndex / FindUVCoordinates / FindPointCellSurface"), ("corners", "EclipseGeometry::FindCornerPoint / FindPointAtPillar"), ("layer surfaces", "EclipseGeometry::FindLayerSurface"), ("common areas", "EclipseGrid::FindIntersectionAreaFaceXY"), ("faults", "EclipseFault / FaceIndexer"), ("refinements", "EclipseCarFinGroup")],
     ["NRLib::EclipseGeometry", "NRLib::EclipseFault", "NRLib::EclipseCarFinGroup"],
     "property testing against an explicit model of the corner-point grid",
     "At most five cells in a direction, pillars that do not cross, points not on the faces of cells, plane layers for the surfaces.")

_TR = "src/nrlib/trend/"
prop("C28", "Trends keep, interpolate and read their values",
     "After any sequence of adding, truncating, scaling to an average, cloning and copying, a constant, 1D, 2D or 3D trend has the elements, size, increments, reference, minimum, maximum, mean and sign check of an array with the same history, and its value at any position (also relative to a volume) is the linear, bilinear or trilinear interpolation of its elements, constant beyond the ends. Trends read from plain, commented, surface and binary files have the values of the file and files cut short or wrong references raise; resampling and storages that read trends give the interpolated values at the nodes of the trend cubes, transposed where the parameters are, and written 1D trends read back.",
     ["inputs", "histories"], "all dimensions, values, operation sequences, positions and file contents",
     "No test exercises trends.",
     [_TR + "trend.cpp", _TR + "trend.hpp", _TR + "trendkit.cpp", _TR + "trendstorage.cpp"],
     [("interpolation", "Trend::GetValue2D / Trend*::GetValue"), ("files", "ReadTrend1D / ReadTrend2DPlainAscii / ReadTrend3DBinary"), ("resampling", "ResampleTrend1D / ResampleTrend2D"), ("storages", "Trend1DStorage / Trend2DStorage::GenerateTrend")],
     ["NRLib::Trend*", "NRLib::Trend*Storage", "NRLib::ReadTrend1D etc."],
     "model-based stateful property testing against numpy arrays and independently written files",
     "Up to six nodes in a direction and histories of six operations; references of 2D trends in increasing order.")

prop("C29", "Trend estimation is the kernel regression it describes",
     "Constant, 1D and 2D trends estimated from wells are the mean, and local linear regressions with Gaussian kernel, bandwidth from the spread of the data widened until every node has the effective sample size, of all observations that have a value and a position; variances are the residual variance, smoothed with the same kernel and drawn towards the overall variance by the effective sample size. Coarser grids for large trends and bins for more than 16384 observations are used as described, and data sets that are empty, too small, without spread or too far from the nodes and estimates that can not be completed are reported.",
     ["inputs", "configurations"], "all data sets, weights, missing values, nodes and mean trends",
     "No test exercises trend estimation.",
     [_TR + "trendkit.cpp", _TR + "trendstorage.cpp"],
     [("local regression", "LocalLinearRegression1D / LocalLinearRegression2DSurface"), ("variance", "EstimateVariance1D / EstimateVariance2D"), ("binning", "MakeBinnedDataset1D / BilinearBinning"), ("collecting data", "PreprocessData1D / 2D")],
     ["NRLib::EstimateTrend1D etc.", "NRLib::Trend*Storage::GenerateTrend"],
     "differential property testing against an independent numpy implementation",
     "11 to 150 observations, or 16385 to 22000; up to 300 nodes; cases within rounding of a decision are left out.")

prop("C30", "The Python utilities estimate what they say and public names exist",
     "Every name that the package and its parts list can be imported, alone or by star, and each variogram type of the enumeration names its variogram. An empirical variogram has, for any grid, padding, resolution, reference points and number of simulations, the midpoints and true correlations of equal distance bins over the diagonal of the grid, and in each bin the mean over simulations and reference points of one minus half the squared differences of the simulated fields, with the number of means and the convergence; the second estimator gives mean and deviation per distance for close and sampled nodes. The padding analyzer uses those estimates for every range and padding with the seed given, and the resource extrapolator the grids it describes.",
     ["inputs", "configurations"], "all grids, variograms, paddings, resolutions, reference points, seeds and numbers of simulations",
     "No test imports the utilities.",
     ["gaussianfft/__init__.py", "gaussianfft/advanced/__init__.py", "gaussianfft/util/__init__.py", "gaussianfft/util/empirical_variogram.py", "gaussianfft/util/empirical_variogram2.py", "gaussianfft/util/padding_analyzer.py", "gaussianfft/util/resource_extrapolator.py"],
     [("estimation", "EmpiricalVariogram.estimate_variogram"), ("reference points", "EmpiricalVariogram.pick_reference_points"), ("padding analysis", "PaddingAnalyzer"), ("exports", "__all__")],
     ["gaussianfft.util", "gaussianfft.__all__"],
     "differential property testing against a brute-force estimate from the recorded fields",
     "Bins with a distance within rounding of their edge are not compared; timings only for number and sign.")

prop("C31", "XML documents are read, changed and written as XML",
     "A document built node by node, or changed by any history of insertions, replacements, removals, copies and settings, has the nodes, attributes, neighbours and texts of that history, refuses what it can not hold, and is visited and found by name or number accordingly. Written in any way (file, string, printer, stream) it is well-formed and is read back as the same tree, and a text is read as the tree it describes, in the encoding given, declared or marked, with white space condensed or kept, and row and column of each node and attribute. A text that is cut anywhere is reported, no text whatever is read beyond its end or stops the program, and numbers in attributes are read and written with all digits.",
     ["inputs", "histories"], "all trees, texts, encodings, histories of changes and malformed texts",
     "No test exercises the XML part.",
     ["src/nrlib/tinyxml/tinyxml.cpp", "src/nrlib/tinyxml/tinyxml.h", "src/nrlib/tinyxml/tinyxmlparser.cpp"],
     [("parser", "TiXmlDocument::Parse / TiXmlElement::Parse / TiXmlText::Parse"), ("streams", "operator>> / StreamIn"), ("writing", "TiXmlPrinter / Print / EncodeString"), ("nodes", "TiXmlNode::InsertEndChild etc."), ("attributes", "TiXmlAttributeSet / Query*Attribute")],
     ["TiXmlDocument", "TiXmlNode", "TiXmlElement", "TiXmlPrinter", "TiXmlHandle"],
     "stateful property testing against a tree model, texts laid out by the check, round trips and a differential with expat",
     "Up to ten changes, some tens of nodes; comments without --, CDATA without its end, markup without > in itself.")

_NR = "src/nrlib/"
prop("C32", "No file crashes, hangs or overruns a reader",
     "Whatever bytes a file holds, each reader of the library (surfaces, STORM and Eclipse grids, SEG-Y volumes, wells, points, wavelets, trends, tables, seeds, text functions and XML) either reads it or raises an exception derived from std::exception, in bounded time and memory. It never accesses memory outside its objects, never aborts and never loops, and what it read can be looked at and written again under the same guarantee.",
     ["inputs"], "all byte strings as file contents, for every reader",
     "Tests read a handful of well-formed files.",
     [_NR + "surface/surfaceio.cpp", _NR + "stormgrid/stormcontgrid.cpp", _NR + "stormgrid/stormfaciesgrid.cpp", _NR + "eclipsegrid/eclipsegrid.cpp", _NR + "eclipsegrid/eclipsegeometry.cpp", _NR + "segy/segy.cpp", _NR + "segy/segytrace.cpp", _NR + "well/rmswell.cpp", _NR + "well/laswell.cpp", _NR + "well/norsarwell.cpp", _NR + "pointset/pointset.cpp", _NR + "wavelet/waveletio.cpp", _NR + "trend/trendkit.cpp", _NR + "iotools/fileio.cpp", _NR + "iotools/stringtools.cpp", _NR + "iotools/tabularfile.cpp", _NR + "tinyxml/tinyxmlparser.cpp"],
     [("counts in headers", "Read*Surf / StormContGrid / SegY / RMSWell constructors"), ("arrays", "ReadBinaryDoubleArray / ParseAsciiArrayFast / ReadAsciiArray"), ("ends of files", "ReadNextToken / CheckEndOfFile"), ("keywords", "EclipseGrid::ReadKeyword")],
     ["constructors and read functions of nrlib that take a file name"],
     "mutation fuzzing of a coverage-minimised corpus under AddressSanitizer and library assertions",
     "Files up to 20 kB; allocations above 64 MB fail; a reader that needs over 15 s of processor time counts as hanging.")
