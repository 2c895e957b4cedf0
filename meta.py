#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe,
                               hook_needed=None), _t=technique, _n=note))


prop("C01", "Variogram correlation equals the documented model for every lag",
     "For every variogram type, spelling (any letter case or the enum), range, azimuth, dip and power, corr() of a 1-, 2- or 3-component lag is the documented correlation function of the anisotropic, rotated, range-normalised distance (0.05 or 0 at one range), with missing, zero or negative secondary ranges taken as the main range. It is 1 at lag 0, symmetric, within [0,1], non-increasing along a ray and positive semi-definite on any set of points.",
     ["inputs", "configurations"], "all types, ranges, angles, powers and lag vectors",
     "The tests evaluate a few types on axis-aligned lags; rotation, dip, mixed components and defaults are a continuum.",
     ["src/nrlib/variogram/variogram.cpp", "src/nrlib/variogram/variogram.hpp", "src/nrlib/variogram/variogramtypes.hpp", "src/gaussfft.cpp", "gaussianfft/__init__.py"],
     [("precomputed quadratic form", "Variogram::EstimateFactors"), ("type dispatch and defaults", "GaussFFT::CreateVariogram"), ("correlation functions", "Corr1D")],
     ["gaussianfft.variogram", "Variogram.corr"],
     "property-based testing (Hypothesis) against an analytic model",
     "Generated-input search; double precision; anisotropy ratio up to 1e4.")

prop("C02", "A simulated field is the seeded noise filtered by the covariance spectrum",
     "For every variogram, grid (1D, 2D, 3D), step, padding and seed, simulate and advanced.simulate return a flat Fortran-ordered array of nx*ny*nz finite values equal to standard normal white noise drawn from the seeded generator on the padded grid, filtered by the square root of the non-negative part of the spectrum of the periodised covariance, and cropped to the grid. A dimension of size at most 1 reduces the dimension without changing the field.",
     ["inputs", "configurations"], "all variograms, grid sizes, steps, paddings and seeds",
     "The tests compare a few stored realisations and sizes; wrap-around quadrants, odd/even sizes, rotated models, mixed paddings and orderings are not covered.",
     ["src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/variogram/fftcovgrid.cpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp", "src/nrlib/fft/fft.hpp", "src/gaussfft.cpp"],
     [("covariance grid with wrap-around lags", "FFTCovGrid1D/2D/3D"), ("filter and noise", "Simulate1D/2D/3DGaussianField"), ("dimension dispatch", "SimulateWithAdvancedSettings")],
     ["gaussianfft.simulate", "gaussianfft.advanced.simulate"],
     "property-based testing against an independent numpy/C reference of the whole construction",
     "Bitwise-level differential up to FFT rounding; grids up to 4e5 cells.")

prop("C03", "Ensembles of fields are standard Gaussian with the requested covariance",
     "With default padding, fields simulated from one seeded stream have mean 0, variance 1 in every cell, covariance equal to the variogram's correlation at every lag along and across the axes (up to the clipping of negative spectrum), and are independent of each other.",
     ["inputs", "configurations", "histories"], "all variograms, grids and seeds",
     "Statistical tests in the suite look at one or two models on fixed seeds and mostly check that numbers are returned.",
     ["src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/random/randomgenerator.cpp", "src/nrlib/random/random.cpp"],
     [("normal variates", "Norm01"), ("padding by model", "FindNDimPadding")], ["gaussianfft.simulate"],
     "property-based testing with a statistical oracle (7 sampling errors)",
     "Generated ensembles of 150-1500 fields; deviations below the sampling error are not seen (C02 sees them).")

prop("C04", "Seeding makes any call history reproducible and isolated",
     "After seed(n), every later field is determined by n and the sequence of simulate calls alone: creating variograms, corr, simulation_size, seed() and rejected calls do not change it, and repeating the seed repeats it. seed() returns the value last set, raises before any seeding, and after an unseeded first simulation returns a clock-derived seed which reproduces that simulation.",
     ["histories", "inputs"], "all sequences of public calls",
     "The tests check a couple of fixed two-call sequences.",
     ["src/gaussfft.cpp", "src/nrlib/random/random.cpp", "src/nrlib/variogram/gaussianfield.cpp"],
     [("global stream and start seed", "Random::Initialize / GetStartSeed"), ("implicit seeding", "SimulateWithAdvancedSettings")],
     ["gaussianfft.seed", "gaussianfft.simulate"],
     "model-based stateful property testing; model = independent dSFMT-19937 stream",
     "Histories up to 16 operations over 8 specifications; fresh-process states by fork.")

prop("C05", "simulation_size follows the padding rule and is what simulate uses",
     "simulation_size returns, per simulated dimension, n + max(int(k*range/step - n), int(range/step)) + 1, where k is the model's range-to-grid ratio and the range is the main range in 1D, in 2D/3D the larger lateral range (along y the perpendicular range when azimuth is 0), and the depth range along z. simulate gives exactly the field of advanced.simulate with those paddings, given fully or for some axes only.",
     ["inputs", "configurations"], "all variograms, grid sizes and steps",
     "The tests check a handful of sizes.",
     ["src/nrlib/variogram/gaussianfield.cpp", "src/gaussfft.cpp", "src/nrlib/variogram/variogramtypes.hpp"],
     [("padding rule", "FindGaussianFieldPadding / FindNDimPadding"), ("ratio per model", "GetMinimumRangeToGridRatio")],
     ["gaussianfft.simulation_size"],
     "property-based testing against the rule, plus a metamorphic relation between the two simulate functions",
     "Sizes off by one are accepted only where range/step is inexactly integer.")

prop("C06", "Smoothing multiplies the covariance by a Gaussian kernel per axis",
     "advanced.simulate with sx, sy, sz in (0,1) simulates with the covariance multiplied, per axis, by s^((lag/R)^2), R being the longest projection of the three variogram ranges on that axis; values of at least 0.99999 leave the field bit-identical. This holds for all units of length, rotations and paddings.",
     ["inputs", "configurations"], "all variograms, grids, paddings and smoothing parameters",
     "No test checks the values of a smoothed field.",
     ["src/nrlib/variogram/fftcovgrid.cpp", "src/nrlib/variogram/fftcovgrid.hpp"],
     [("projected ranges", "FindVariogramRanges"), ("kernel", "FindSmoothingFactorX/Y/Z")], ["gaussianfft.advanced.simulate"],
     "property-based testing against an independent numpy reference",
     "As C02.")

prop("C07", "Threads linearise and repeated use does not grow memory",
     "Fields simulated concurrently by any number of Python threads from one seeded stream are exactly those of some sequential order, each thread seeing them in stream order. Repeating any public operation any number of times does not increase the memory of the process.",
     ["schedules", "histories"], "all thread interleavings and repetition counts",
     "No test uses threads or measures memory.",
     ["src/gaussfftinterface.cpp", "src/gaussfft.cpp", "src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/random/random.cpp"],
     [("the interpreter lock is held during calls", "PYBIND11_MODULE bindings"), ("ownership of variograms and generators", "return_value_policy::take_ownership")],
     ["gaussianfft.simulate", "process RSS"],
     "property-based testing of generated thread programs and repetition histories",
     "Interleavings are those the interpreter produces with switch intervals down to 1 us; leaks above 100 B per call (800 B per simulation).")

exec(open(os.path.join(HERE, "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "meta_more.py")) else None

NA = []

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = []
for p in P:
    c = "python3-vt run.py " + p["id"]
    checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick " + c, thorough_cmd="VERIF_TIER=thorough " + c,
                       evidence_file="evidence/%s.json" % p["id"], technique=p["_t"], level="exploration", level_note=p["_n"]))
M = dict(version=1, setup_cmd="python3-vt -c \"import hypothesis, numpy, scipy\" && g++ --version >/dev/null", checks=checks,
         not_applicable=NA,
         notes="Every check rebuilds what it needs from /repo's working tree into /verif/_build. Replay: python3-vt run.py <id> --replay <file>.")
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P), "properties")
