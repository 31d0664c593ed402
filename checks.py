"""The table of checks: which harness, which sources of /repo, which bounds."""
COMMON_ASSUMPTIONS = [
    "The encoding is clang 18 -O1 bitcode of /repo's current sources with libstdc++ headers; libstdc++/libc functions that are "
    "not header-only (string streams, locale, strtol/strtod, memory allocation, regex) are replaced by the models in /verif/model; "
    "path witnesses are replayed against the real library to validate them.",
    "Allocation never fails; a single thread executes the code.",
]
CHECKS = {}
ST = ["common/StringTools.cc"]

def R(*a): return list(range(*a))

# ---------------------------------------------------------------- baselines
def _win():
    out = []
    for n in (300, 576, 5000, 70000, 200000):
        for o in (0, 1):
            for c in (n - 4, n // 2, n // 3):
                for r in sorted({0, max(0, c - 3), c // 2}):
                    out.append([n, o, 3, c, r])
    return out
CHECKS["C01"] = dict(
    bounds="station counts 1,2,5,8,12,16,24,32,48 for the complete inverse; 1..576 (thorough 5000) for index range/injectivity; "
           "4x4 windows of station pairs at counts 300..200000; both orderings; list generation for 1,5,20 stations",
    units=[dict(name="inverse", harness="baseline.cc", ub=True, reach=["inverse"], weight=9,
                params=[[n, o, 0] for n in (1, 2, 5, 8, 12, 16, 24, 32) for o in (0, 1)],
                thorough=[[n, o, 0] for n in (1, 2, 3, 5, 8, 12, 16, 24, 32, 48) for o in (0, 1)]),
           dict(name="index", harness="baseline.cc", ub=True, reach=["index"],
                params=[[n, o, 1] for n in (1, 2, 3, 7, 100, 576) for o in (0, 1)],
                thorough=[[n, o, 1] for n in (1, 2, 3, 7, 100, 576, 5000) for o in (0, 1)]),
           dict(name="list", harness="baseline.cc", ub=True, reach=["list"], params=[[n, o, 2] for n in (1, 5, 20) for o in (0, 1)]),
           dict(name="window", harness="baseline.cc", ub=True, reach=["large"], params=_win())])
# ---------------------------------------------------------------- numbers in text
CHECKS["C02"] = dict(
    bounds="all byte strings of length <=4 (int, long; <=3 for the other types) plus decimal and hexadecimal texts at the limits of "
           "every integer type (windows of 2-3 free digits around each limit)",
    assumptions=["A string of blanks only is outside the property."],
    units=[dict(name="int", harness="strnum.cc", src=ST, reach=["malformed", "outofrange", "value"], params=
        [[t, 0, n] for t in range(10) for n in (R(1, 5) if t in (0, 5) else R(1, 4))] +
        [[t, 1, n, w, 0] for t in range(10) for w in range(9) for n in (2, 3)] + [[t, 1, 4, 0, 0] for t in range(10)] +
        [[t, 1, 1, 0, 1] for t in range(10)] +
        [[t, 2, 2, w, int(w == 0)] for t in range(10) for w in range(9)])])
CHECKS["C03"] = dict(
    bounds="all byte strings of length <=4 for double and float, all of length <=3 for bool; decimal texts with exponents at the "
           "overflow and underflow limits",
    assumptions=["A string of blanks only is outside the property."],
    units=[dict(name="flt", harness="strflt.cc", src=ST, reach=["ok", "bad", "value", "inrange", "outofrange", "true", "false", "nobool"], params=
        [[t, 0, n, 0] for t in (0, 1) for n in R(1, 5)] + [[t, 1, n, x] for t in (0, 1) for n in (1, 2) for x in range(6) if (n, x) != (2, 5)] +
        [[t, 2, 2, x] for t in (0, 1) for x in range(9)] + [[2, 0, n] for n in range(4)])])
CHECKS["C04"] = dict(
    bounds="strings of up to 6 arbitrary bytes (skipping, quotes, brackets), 5 for tokenising with 0-2 delimiters, 3x3 for comparing",
    units=[dict(name="lex", harness="strskip.cc", src=ST, reach=["ws", "quoted", "unterminated", "balanced", "unbalanced", "tokens", "order"], params=
        [[0, n] for n in range(6)] + [[1, n] for n in R(1, 7)] + [[2, n, k] for n in range(7) for k in range(3)] +
        [[3, n, d] for n in range(6) for d in range(3)] + [[4, n, m, c] for n in range(4) for m in range(4) for c in (0, 1)])])
CHECKS["C05"] = dict(
    bounds="start and end numbers of 1-3 digits spanning at most 11 steps, prefixes and suffixes of 0-1 free letters, four notations, "
           "alone or inside a list; 11 steps at the limits of int; arbitrary strings of up to 4-5 characters over two syntax alphabets",
    units=[dict(name="range", harness="strexpand.cc", src=ST, ub=True, sx=["--fork-select"], reach=["ascending", "descending"], params=
        [[0, 1, 1, p, s, f, fn] for p in (0, 1) for s in (0, 1) for f in range(4) for fn in range(3)] +
        [[0, 1, 1, p, s, f, fn] for p, s in ((2, 2), (0, 3)) for f in range(4) for fn in (0, 2)] +
        [[0, 2, 2, 1, 1, 0, 0], [0, 2, 1, 1, 1, 0, 0], [0, 1, 2, 0, 1, 0, 0], [0, 3, 1, 1, 0, 0, 2]]),
        dict(name="limit", harness="strexpand.cc", src=ST, ub=True, sx=["--fork-select"], reach=["limit"], params=[[2, k] for k in range(3)]),
        dict(name="any", harness="strexpand.cc", src=ST, ub=True, sx=["--fork-select"], reach=["unchanged", "error"],
             params=[[1, n, 0] for n in range(6)] + [[1, n, 1] for n in range(5)],
             thorough=[[1, n, k] for n in range(6) for k in (0, 1)])])
CHECKS["C06"] = dict(
    bounds="repeat counts 0-5 written in 1-2 digits, values of 0-2 free letters, eight notations alone or inside a list; arbitrary "
           "strings of up to 5 characters over two syntax alphabets; ranges inside repetitions",
    units=[dict(name="mult", harness="strexpand.cc", src=ST, reach=["zero", "copies"], params=
        [[3, d, v, f, fn] for d in (1, 2) for v in range(3) for f in range(8) for fn in range(3) if not (v == 0 and f in (0, 1, 5, 7))]),
        dict(name="any", harness="strexpand.cc", src=ST, reach=["unchanged", "error"], params=[[4, n, k] for n in range(6) for k in (0, 1)]),
        dict(name="both", harness="strexpand.cc", src=ST, reach=["both"], params=[[5, f] for f in range(3)])])
# ---------------------------------------------------------------- small algebras
CHECKS["C07"] = dict(
    bounds="all sets of fields; pipelines of up to 6 steps with arbitrary required and provided sets",
    units=[dict(name="fields", harness="fields.cc", src=["common/Fields.cc"], reach=["step", "pipeline", "print"],
                params=[[0], [2]] + [[1, n] for n in R(1, 7)], thorough=[[0], [2]] + [[1, n] for n in R(1, 9)])])
CHECKS["C08"] = dict(
    bounds="1-4 directions with 1-6 solutions each, 1-3 antennas, 1-4 polarisations, 1-2 intervals, 1-3 channel blocks; symbolic values",
    units=[dict(name="resample", harness="resample.cc", src=["ddecal/SolutionResampler.cc"], reach=["solutions", "results"], params=
        [[part, len(ns), na, np, nt, nc, si] + ns for part in (0, 1)
         for na, np, nt, nc in ((1, 1, 1, 1), (2, 2, 2, 2), (3, 4, 1, 1), (2, 1, 2, 3))
         for si, ns in ((1, [1]), (6, [6]), (6, [1, 2]), (6, [3, 1, 6]), (6, [2, 3]), (12, [4, 6, 1]), (4, [4, 2, 1, 4]), (8, [2, 2]), (6, [2, 3, 6]))])])
CHECKS["C09"] = dict(
    bounds="up to 5 int, 3 float and 2 double values (thorough 6, 4 and 4), finite, bit-precise",
    units=[dict(name="median", harness="median.cc", reach=["empty", "median"], params=[[t, n] for t in (0, 1, 2) for n in range(6) if t == 2 or n < (4 - t)],
                thorough=[[t, n] for t in (0, 1, 2) for n in range(7) if t == 2 or n < 5])])
CHECKS["C10"] = dict(
    bounds="all texts of up to 5 bytes, every documented name with any one character replaced or appended; all 17 calibration types; all 32-bit mode numbers",
    units=[dict(name="mode", harness="calmode.cc", src=["base/CalType.cc"], reach=["accepted", "rejected", "roundtrip", "badmode", "unused", "mode"],
                params=[[0, -1, n] for n in range(6)] + [[0, k] for k in range(23)] + [[1], [2]])])
CHECKS["C11"] = dict(
    bounds="up to 3 stations, 3 baselines (cross, auto, reversed), 2 channels, padded strides; exact real arithmetic",
    assumptions=["Floating point operations are exact real arithmetic (rounding is not modelled)."],
    units=[dict(name="apply", harness="jones.cc", src=["base/Apply.cc", "base/SubtractMixed.cc"], real=True, reach=["apply"], params=
        [[0, 3, nch, 3, pad] + b for nch in (1, 2) for pad in (0, 1) for b in ([0, 1, 1, 1, 2, 0], [0, 0, 1, 2, 2, 1])] + [[0, 1, 1, 1, 0, 0, 0], [0, 2, 3, 1, 2, 1, 0]])])
CHECKS["C12"] = dict(
    bounds="up to 3 baselines (cross, auto), 2 channels, padded strides; exact real arithmetic",
    assumptions=["Floating point operations are exact real arithmetic (rounding is not modelled); NaN handling is decided for one baseline with chosen NaN parts and fixed values elsewhere."],
    units=[dict(name="subtract", harness="jones.cc", src=["base/Apply.cc", "base/SubtractMixed.cc"], real=True, reach=["subtract"], params=
        [[1, 3, nch, 3, pad] + b for nch in (1, 2) for pad in (0, 1) for b in ([0, 1, 1, 1, 2, 0], [0, 0, 1, 2, 2, 1])]),
        dict(name="invalid", harness="jones.cc", src=["base/Apply.cc", "base/SubtractMixed.cc"], reach=["nan"], params=[[2, 2, 1, 1, 0, 0, 1]])])
CHECKS["C13"] = dict(
    bounds="arrays of up to 3 values of 2, 4, 8 bytes with all contents; bit packing of up to 11 values at start bits 0..17",
    units=[dict(name="convert", harness="convert.cc", src=["common/DataConvert.cc"], reach=["swap", "scalar", "complex", "bits"],
                params=[[0, n] for n in range(4)] + [[1, 0]] + [[2, n, s] for n in (0, 1, 2, 7, 8, 9, 11) for s in (0, 1, 5, 7, 8, 11, 17)])])
CHECKS["C14"] = dict(
    bounds="file names of up to 7 characters, up to 2 mount points of up to 5 characters, over an alphabet of slash and two letters; automount prefix",
    units=[dict(name="find", harness="nodedesc.cc", src=["common/NodeDesc.cc", "common/StringTools.cc"], reach=["none", "mount", "root"],
                params=[[nf, 2, a, b, au] for nf in (1, 3, 5, 6) for a in (0, 1, 2, 3, 4) for b in (0, 1, 3) for au in (0, 1)] + [[4, 0, 0]])])
# ---------------------------------------------------------------- parameter sets
PS = ["common/ParameterValue.cc", "common/ParameterRecord.cc", "common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/StringTools.cc"]
CHECKS["C15"] = dict(
    bounds="bodies of up to 5 characters over three syntax alphabets; up to 2 elements of six forms with free words of 0-2 characters; vectors of up to 2 numbers of 1-4 digits",
    units=[dict(name="vector", harness="parvalue.cc", src=PS, reach=["vector", "malformed", "forms", "string", "badquote", "numbers", "uint32", "toolarge"],
                params=[[0, n, a] for n in range(6) for a in range(3)] + [[1, k, n] for k in (1, 2) for n in (0, 1, 2)] + [[2, n, t] for n in range(6) for t in (0, 1)] +
                [[5, k, d] for k in (1, 2) for d in (1, 2, 4)] + [[6, d, p] for d in (1, 2, 3) for p in (0, 1, 2)])])
CHECKS["C16"] = dict(
    bounds="records of up to 3 fields of 4x4 notations with free words of 0-1 characters; record bodies of up to 5 characters over a syntax alphabet",
    units=[dict(name="record", harness="parvalue.cc", src=PS, reach=["record", "anyrecord", "badrecord"],
                params=[[3, k, n] for k in (1, 2) for n in (0, 1)] + [[4, n] for n in range(6)])])
CHECKS["C17"] = dict(
    bounds="times of 1-4 digits with unit words of 0-3 and 1100 letters; arbitrary texts of up to 3 bytes",
    units=[dict(name="time", harness="parvalue.cc", src=PS, reach=["time", "badtime"],
                params=[[7, d, u] for d in (1, 2, 4) for u in (0, 1, 3, 1100)] + [[8, n] for n in range(4)])])
CHECKS["C18"] = dict(
    bounds="parameter texts of up to 3 lines in eleven forms with free values, with and without prefix and final newline; arbitrary texts of up to 6 characters over two alphabets; "
           "write/read round trip of 2 values of up to 3 characters",
    units=[dict(name="read", harness="parset.cc", src=PS, reach=["lines", "none", "accepted", "rejected", "roundtrip"],
                params=[[0, n, e, p] for n in (1, 2) for e in (0, 1) for p in (0, 1)] + [[0, 3, 0, 0]] + [[1, n, a] for n in range(6) for a in (0, 1)] +
                [[5, 1, n] for n in range(5)] + [[5, 2, a, b] for a in (0, 2) for b in (1, 3)])])
CHECKS["C19"] = dict(
    bounds="name comparison with and without letter case; up to 3 names of 1-3 characters and prefixes of 0-2 characters over an alphabet of 3-4 characters",
    units=[dict(name="override", harness="parset.cc", src=PS, reach=["overrides"], params=[[2, c] for c in (0, 1)]),
           dict(name="subset", harness="parset.cc", src=PS, reach=["subset", "empty"],
                params=[[3, 2, c, b, k1, k2] for c in (0, 1) for b in (0, 1, 2) for k1 in (1, 2, 3) for k2 in (1, 2)] + [[3, 3, 0, b, 2, 1, 2] for b in (1, 2)])])
CHECKS["C20"] = dict(
    bounds="three parameters, thirteen value types, scalar and list access, present and absent, with and without default and expansion, with and without letter case",
    units=[dict(name="usage", harness="parset.cc", src=PS, reach=["usage", "everyway"], params=[[4, c, h] for c in (0, 1) for h in range(11)] +
                [[6, c, t, h] for c in (0, 1) for t in range(13) for h in range(11)])])
# ---------------------------------------------------------------- parameter database geometry
PA = ["parmdb/Axis.cc", "parmdb/Box.cc", "parmdb/Grid.cc", "parmdb/AxisMapping.cc"]
REAL = ["Floating point operations are exact real arithmetic (rounding is not modelled); distinct cell borders are at least 0.01 apart.",
        "casacore::near is the documented relative comparison (stubs/casacore/casa/BasicMath/Math.h)."]
CHECKS["C21"] = dict(
    bounds="axes of up to 4 cells with all hole patterns, all search hints, values on every border or clearly away from all; combining every pair of sub-ranges of 4 cells; compression of up to 5 cells by factors 1-6",
    assumptions=REAL,
    units=[dict(name="axis", harness="parmaxis.cc", src=PA, real=True, symflags=["-DEXACT_NEAR"], reach=["inside", "outside", "none", "subset", "combined", "mismatch", "compressed"], params=
        [[0, n, g, c] for n in (1, 2, 3) for g in range(2 ** (n - 1)) for c in (0, 1)] +
        [[1, n, g, 0] for n in (1, 2, 3) for g in range(2 ** (n - 1))] + [[1, n, 0, 1] for n in (1, 3)] +
        [[2, a, b, c, d] for a in range(3) for b in range(a + 1, 5) for c in range(4) for d in range(c + 1, 5)] + [[3]] +
        [[4, n, f, r] for n in (1, 2, 3, 4, 5) for f in (1, 2, 3, 6) for r in (0, 1, 2)])])
CHECKS["C22"] = dict(
    bounds="all pairs of boxes; grids of up to 3x3 cells with holes, in 4 orders; grids of up to 2x3 grids of 1x2 cells",
    assumptions=REAL,
    units=[dict(name="grid", harness="parmaxis.cc", src=PA, real=True, symflags=["-DEXACT_NEAR"], reach=["boxes", "grid", "grids"], params=
        [[5]] + [[6, x, y, g, h, p] for x in (1, 2, 3) for y in (1, 2, 3) for g, h in ((0, 0), (1, 2)) for p in range(4)] +
        [[7, kx, ky, nx, ny, r] for kx in (1, 2) for ky in (1, 2, 3) for nx, ny in ((1, 1), (2, 1), (1, 2)) for r in (0, 1)])])
CHECKS["C23"] = dict(
    bounds="axes of up to 3 to 3 cells at any relative position",
    assumptions=REAL,
    units=[dict(name="mapping", harness="parmaxis.cc", src=PA, real=True, symflags=["-DEXACT_NEAR"], reach=["mapping"], params=[[8, f, t] for f in (1, 2, 3) for t in (1, 2, 3) if f + t < 6 and (f, t) != (2, 3)], thorough=[[8, f, t] for f in (1, 2, 3) for t in (1, 2, 3)])])
# ---------------------------------------------------------------- sky model
SKY = ["base/PointSource.cc", "base/GaussianSource.cc", "base/Stokes.cc", "base/ComponentInfo.cc", "sky_model/Patch.cc"]
FPREAL = "Floating point operations are exact real arithmetic (rounding is not modelled); sin, cos, asin, atan2, log10 and pow of symbolic values are uninterpreted functions with the identities sin^2+cos^2=1, parity and exact values at 0."
CHECKS["C24"] = dict(
    bounds="0-4 spectral terms of both kinds at six pairs of frequencies with and without rotation measure, symbolic fluxes, terms and angles; "
           "up to 3 components inspected in sequence; patches of 0-3 components",
    assumptions=[FPREAL],
    units=[dict(name="source", harness="skysource.cc", src=SKY, real=True, reach=["flux", "settings", "inspect", "terms", "patch"], params=
        [[0, n, l, rm, g, f, rep] for n in range(5) for l in (0, 1) for rm in (0, 1) for g in (0, 1) for f in range(6) for rep in (0, 1) if (g == rep or f == 0)] + [[1]] +
        [[2, 2, a, ga, b, gb] for a in range(4) for b in range(5) for ga in (0, 1) for gb in (0, 1)] + [[2, 3, 3, 0, 1, 1, 2, 0]] + [[3, n] for n in range(4)])])
CHECKS["C25"] = dict(
    bounds="three solvers, matrices of up to 4x3, up to 3 right hand sides, two solves with the same solver, symbolic matrices, solutions and status; names with one arbitrary character and arbitrary texts of up to 3",
    assumptions=["The LAPACK routines cgels, cgelss and cposv are stand-ins that check their arguments and return an arbitrary solution or failure.", "Exact real arithmetic."],
    units=[dict(name="solve", harness="lls.cc", src=["ddecal/linear_solvers/LLSSolver.cc"], real=True, reach=["solved", "failed", "under"], params=
        [[1, t, m, n, r, 1 + (t + m) % 2, (n + r) % 2] for t in range(3) for m in (1, 2, 3, 4) for n in (1, 2, 3) for r in (1, 2, 3) if t < 2 or m * n * r <= 18]),
        dict(name="name", harness="lls.cc", src=["ddecal/linear_solvers/LLSSolver.cc"], reach=["named", "unknown"], params=[[0, k, 0] for k in range(3)] + [[0, -1, n] for n in range(4)])])
# ---------------------------------------------------------------- timers
CHECKS["C26"] = dict(
    bounds="up to 3 operations of seven kinds (start/stop, scoped, reset, add, accumulate, nested and restarted, exception) on two timers with a symbolic clock",
    assumptions=["Clock readings are exact real numbers."],
    units=[dict(name="timer", harness="timer.cc", src=["common/PrettyUnits.cc"], real=True, reach=["timer"], params=[[1], [2]], thorough=[[1], [2], [3]])])
# ---------------------------------------------------------------- phase fits
CHECKS["C27"] = dict(
    bounds="3-4 frequencies, symbolic data, weights and solutions; grid search with one wrap and any of its fits succeeding; iteration stops at steps 1, 2 and at the limit of 200",
    assumptions=["The GSL routines are stand-ins that check their arguments and return arbitrary solutions, status and iteration counts.",
                 "Exact real arithmetic; sin and cos are uninterpreted functions with sin^2+cos^2=1."],
    units=[dict(name="tec", harness="fits.cc", src=["ddecal/constraints/TecOffsetDelayFitting.cc", "base/PhaseFitter.cc"], real=True,
                reach=["linear", "gradient", "search", "choice", "evaluate", "cost"], params=
        [[0, n, p] for n in (3, 4) for p in (2, 3)] + [[1, 3, k, s] for k in (1, 2) for s in (0, 1)] + [[1, 3, 200, 1], [1, 3, 1000, 0]] +
        [[2, 3, p, g, g] for p in (2, 3) for g in (0, 5, 6, 17, 35, 36, 40)] + [[3, 3, p, g, h] for p in (2, 3) for g, h in ((0, 1), (7, 20), (34, 35), (20, 36), (5, 40))] +
        [[4, 1]] + [[5, n, b, w] for n in (1, 2) for b in (0, 1) for w in (0, 1, 2) if (n, b, w) != (2, 1, 0)]),
        dict(name="phase", harness="fits.cc", src=["ddecal/constraints/TecOffsetDelayFitting.cc", "base/PhaseFitter.cc"], reach=["fitted"], max_steps=20000000,
             max_time=60, params=[[6, t, s, b] for t in (0, 1) for s in (0, 1, 2) for b in (0, 1, 2)])])
CASA = "The casacore, aocommon, xtensor, EveryBeam and schaapcommon types are the stand-ins in /verif/stubs (arrays, 2x2 matrices, measures in one frame, loops run in order on one thread)."
CHECKS["C28"] = dict(
    bounds="1-4 channels, 1-6 time slots, sequences of 2 (thorough 3) selections or averagings with every factor; 2-3 antennas with all lists of 1-3 baselines and all selections; 2 baselines with 1-3 channels each; grouped sums of 5-8 equal channel widths around 4/3 with any last 16 bits, in IEEE arithmetic",
    assumptions=[CASA, "Exact real arithmetic."],
    units=[dict(name="info", harness="dpinfo.cc", src=["base/DPInfo.cc"], real=True,
                reach=["times", "badtimes", "channels", "badchannels", "average", "badaverage", "select", "badselect", "selectbaselines", "removeantennas", "setagain", "badantennas", "bda", "badbda", "regular"],
                params=[[0, k, i] for k in (0, 1, 2, 5) for i in range(5)] + [[1, n, w, r, e] for n in (1, 2, 3) for w in (n, n + 1) for r in (0, n, n + 1) for e in (0, n, n - 1 or 3)] +
                [[2, n, t, 1] for n in (1, 2, 3, 4) for t in (1, 5)] + [[2, n, 3, 2] for n in (2, 4)] +
                [[3, n, b, l] for n, b in ((2, 1), (2, 2), (3, 1), (3, 2), (3, 3)) for l in (0, 1)] + [[4]] +
                [[5, a, b, k] for a, b in ((1, 1), (1, 2), (3, 2)) for k in range(7)] + [[6, n, p] for n in (1, 2, 3) for p in (0, 1)],
                thorough=[[2, n, t, 3] for n in (2, 3, 4, 6) for t in (2, 4)] + [[3, 4, b, l] for b in (2, 3) for l in (0, 1)] + [[6, 4, 0], [6, 4, 1]]),
           dict(name="rounding", harness="dpinfo.cc", src=["base/DPInfo.cc"], reach=["rounding"], params=[[7, 5, 2], [7, 6, 2], [7, 6, 3], [7, 8, 3]])])
CHECKS["C29"] = dict(
    bounds="baseline-dependent buffers of 4-8 elements with every combination of fields and sequences of 3 (thorough 4) operations; all pairs of row times; time slot buffers of 2 baselines, 1 channel and 2 correlations with sequences of 2 (thorough 3) operations",
    assumptions=[CASA, "Row times and metadata are compared in exact real arithmetic."],
    units=[dict(name="buffers", harness="buffers.cc", src=["base/BdaBuffer.cc", "base/DPBuffer.cc", "common/Fields.cc"],
                reach=["row", "full", "adddata", "rename", "move", "clear", "copy", "copydata", "movedata", "assign", "fields", "take"],
                params=[[0, m, 8, 3] for m in range(8)] + [[0, m, 4, 2] for m in (0, 7)] + [[3, 2]],
                thorough=[[0, m, 6, 4] for m in range(8)] + [[3, 3]]),
           dict(name="rows", harness="buffers.cc", src=["base/BdaBuffer.cc", "base/DPBuffer.cc", "common/Fields.cc"], real=True,
                reach=["ordered", "refused", "compare"], params=[[1, p] for p in range(3)] + [[2, w] for w in range(14)])])
STEP = ["steps/Step.cc", "base/DPInfo.cc", "base/DPBuffer.cc", "base/BdaBuffer.cc", "common/Fields.cc", "common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/ParameterValue.cc", "common/StringTools.cc"]
CHECKS["C30"] = dict(
    bounds="1-2 baselines, 1-6 channels, 1-2 correlations, 1-5 time slots, averaging factors dividing the channels and any up to above the number of times; every resolution from below zero to above the whole range",
    assumptions=[CASA, "Exact real arithmetic.", "Weights are not negative."],
    units=[dict(name="average", harness="averager.cc", src=["steps/Averager.cc"] + STEP, real=True,
                reach=["unchanged", "toofew", "flagged", "mean", "partial", "whole", "resolution", "mismatch"],
                params=[[0, 1, 2, 1, 3, 2, 2, 1, 0, 0], [0, 1, 1, 1, 3, 1, 2, 1, 75, 0], [0, 1, 2, 1, 3, 2, 2, 0, 60, 2], [0, 1, 2, 1, 4, 1, 3, 0, 100, 2], [0, 1, 4, 1, 2, 2, 1, 2, 0, 2], [0, 1, 2, 1, 3, 3, 3, 1, 50, 0], [0, 2, 1, 2, 2, 1, 2, 1, 0, 2], [0, 1, 3, 1, 2, 3, 2, 0, 75, 0],
                        [0, 2, 6, 2, 5, 2, 3, 1, 25, 1], [0, 2, 6, 2, 4, 3, 2, 3, 0, 1], [0, 1, 3, 2, 3, 1, 1, 1, 0, 1], [1, 2, 4, 2, 5, 2, 4, 1, 0, 1], [1, 1, 3, 1, 2, 0, 0, 1, 0, 1], [1, 2, 2, 1, 2, 5, 7, 1, 0, 1],
                        [2, 2, 2, 2, 5, 2, 4, 1, 0, 1], [2, 1, 3, 1, 3, 3, 1, 1, 0, 1], [3, 0]] + [[3, 1, k] for k in range(1, 12, 2)] + [[4, 1, 2, 1], [4, 2, 1, 1], [4, 2, 2, 2]],
                thorough=[[0, 1, 3, 1, 4, 3, 4, 2, 25, 0], [0, 1, 4, 1, 3, 2, 2, 1, 50, 0], [0, 2, 8, 4, 6, 4, 4, 2, 25, 1]])])
CHECKS["C31"] = dict(
    bounds="1-4 baselines of 0-90 m, 1-5 channels, 1-2 correlations, 1-5 time slots, time and channel thresholds giving factors 1 to beyond the data; every place and split of a long row; requested sizes 1-5 rows",
    assumptions=[CASA, "Exact real arithmetic.", "Weights are positive, except where a zero weight is asked for."],
    units=[dict(name="bda", harness="bda.cc", src=["steps/BDAAverager.cc", "steps/BdaExpander.cc"] + STEP, real=True,
                reach=["noweight", "mean", "extra", "partial", "whole", "expanded", "rows", "scheme", "badscheme", "sizes", "refuse"],
                params=[[0, 1, 2, 1, 3, 20, 20, 0, 1, 2, 0], [0, 1, 3, 1, 2, 20, 20, 0, 1, 2, 0], [0, 2, 4, 2, 5, 40, 50, 0, 1, 1, 1], [0, 4, 3, 1, 4, 40, 80, 0, 2, 1, 0], [0, 2, 3, 1, 4, 100, 0, 5, 1, 1, 0],
                        [0, 3, 4, 1, 3, 0, 40, 0, 8, 0, 0], [0, 3, 4, 1, 3, 30, 40, 0, 0, 1, 0], [0, 2, 5, 1, 4, 40, 20, 0, 2, 3, 1], [0, 2, 2, 2, 3, 0, 0, 0, 1, 1, 0],
                        [1, 2, 4, 2, 5, 40, 50, 0, 1, 1, 0], [1, 4, 3, 1, 4, 40, 80, 0, 2, 1, 0], [1, 2, 3, 1, 6, 80, 0, 8, 1, 1, 0], [1, 1, 2, 1, 3, 20, 10, 0, 1, 2, 0], [1, 3, 4, 1, 4, 20, 50, 0, 1, 0, 1], [1, 2, 1, 1, 3, 20, 0, 0, 1, 0, 0]] +
                [[2, k, p] for k, p in ((0, 0), (31, 0), (5, 0), (0, 4), (31, 4), (10, 4), (31, 2), (4, 2), (18, 1), (12, 3))] +
                [[3, n, c, t, f, b] for n, c, t, f in ((2, 4, 40, 40), (3, 3, 20, 0), (2, 5, 0, 60)) for b in range(4)] + [[4, a, b] for a in range(1, 6) for b in (1, 2, 4)] + [[5, w] for w in range(6)],
                thorough=[[0, 4, 8, 4, 6, 60, 50, 0, 1, 1, 1], [0, 1, 4, 1, 2, 20, 20, 0, 1, 2, 0], [1, 4, 8, 2, 7, 60, 50, 0, 1, 1, 0]] + [[2, k, p] for k in range(32) for p in range(5)])])
CHECKS["C32"] = dict(
    bounds="1-4 input times, 2-5 parts each, 2 baselines, 1-2 channels; gaps between the times of 0 to more than one interval, off by any amount up to a tenth of a part; no data at all",
    assumptions=[CASA, "Exact real arithmetic.", "The calculation of the coordinates of a baseline is replaced by an arbitrary function of its stations and the time."],
    units=[dict(name="upsample", harness="upsample.cc", src=["steps/Upsample.cc"] + STEP, real=True, reach=["overlap", "disjoint", "refuse", "none"],
                params=[[0, 3, 2, 0, 1, 1, 2, 2], [0, 3, 2, 1, 0, 1, 1, 1], [0, 3, 2, 0, 1, 1, 0, 2], [0, 2, 3, 0, 0, 2, 2], [0, 3, 3, 1, 1, 1, 2, 1], [0, 3, 3, 0, 0, 1, 3, 4],
                        [0, 4, 4, 0, 1, 1, 3, 4, 2], [0, 3, 5, 0, 0, 1, 2, 3], [0, 1, 2, 1, 0, 2], [0, 3, 3, 0, 1, 1, 0, 3], [0, 4, 2, 0, 0, 1, 0, 2, 2], [1], [2, 2], [2, 3]],
                thorough=[[0, 4, 3, 0, 0, 1, a, b, c] for a in (0, 1, 2, 3, 4) for b in (2, 3) for c in (1, 2, 3) if a + b >= 3 and b + c >= 3])])
CHECKS["C33"] = dict(
    bounds="1-2 baselines, 1-2 channels, 1-2 correlations, 1-2 time slots, coordinates of -300 to 300 m; one or two of the eight coordinates with ranges, minimum and maximum; regular and baseline-dependent data",
    assumptions=[CASA, "Exact real arithmetic.", "The calculation of coordinates for another direction is replaced by an arbitrary function of the stations and the time."],
    units=[dict(name="uvwflag", harness="uvwflag.cc", src=["steps/UVWFlagger.cc", "base/FlagCounter.cc", "common/StringTools.cc"] + [s for s in STEP if s != "common/StringTools.cc"], real=True, reach=["regular", "bda", "nothing", "counts", "refused"],
                params=[[b, k, h, k, h, 0, 0, 1 if k == 4 else 2, 1, 0] for b in (0, 1) for k in range(8) for h in (1, 2, 3 + k % 3)] +
                       [[b, 0, 1, 5, 2, c, 0, 1, 2, 0] for b in (0, 1) for c in (0, 1)] + [[b, 6, 3, 3, 4, 1, 1, 1, 1, 0] for b in (0, 1)] +
                       [[b, 1, 5, 7, 1, 0, 0, 1, 1, 1] for b in (0, 1)] + [[0, 1, 0, 1, 0, 0, 0, 1, 1, 1], [0, 2, 2, 2, 2, 0, 1, 1, 1, 1]] + [[2, w] for w in range(5)])])
CHECKS["C37"] = dict(
    bounds="2-4 antennas, 0-4 baselines between any of them (also to themselves), any coordinates; two sets of antenna positions; two directions",
    assumptions=[CASA, "Exact real arithmetic."],
    units=[dict(name="split", harness="simulate.cc", src=["base/Simulate.cc", "steps/PhaseShift.cc", "base/FlagCounter.cc"] + STEP, real=True, sx=["--numeric"], reach=["split", "splitlong", "rotate"],
                params=[[2, n, b, q] for n in (2, 3) for b in (0, 1, 2, 3) for q in range(3)] + [[2, 4, 2, q] for q in range(3)] + [[3]], thorough=[[2, 4, 3, q] for q in range(3)] + [[2, 3, 4, q] for q in range(3)])])
CHECKS["C36"] = dict(
    bounds="3 stations, a baseline and its reverse and an autocorrelation, 3 channels, four pairs of directions; any brightness and any visibilities already there; spectra of 0-3 terms at any frequency",
    assumptions=[CASA, "Exact real arithmetic; results within 1e-4 for geometries given as numbers.", "Powers, sines and cosines of unknown values are any functions."],
    units=[dict(name="predict", harness="simulate.cc", src=["base/Simulator.cc", "base/Simulate.cc", "base/PointSource.cc", "base/GaussianSource.cc", "base/Stokes.cc", "steps/PhaseShift.cc", "base/FlagCounter.cc"] + STEP, real=True, sx=["--numeric"], reach=["point", "gaussian", "spectrum"],
                params=[[0, 0, i, t, f, 0, g] for i in (0, 1) for t in (0, 1) for f in (0, 1) for g in (0, 3)] + [[0, 0, 0, 1, 1, 0, g] for g in (1, 2)] + [[0, 1, i, 0, 0, a, g] for i in (0, 1) for a in (0, 1) for g in range(4)] + [[0, 1, i, t, f, 1, 0] for i in (0, 1) for t in (0, 1) for f in (0, 1)]
                + [[1, 0, 0, 0, 0], [1, 0, 0, 1, 0]] + [[1, 1, n, r, w] for n in range(4) for r in (0, 1) for w in (0, 1)] + [[1, 2, n, r, 0] for n in range(4) for r in (0, 1)], max_time=120, solver_timeout=15000)])
CHECKS["C35"] = dict(
    bounds="1-2 baselines, 1-3 channels of any frequency, 1-4 correlations, 1-2 time slots, any data and coordinates; any two directions on the sky",
    assumptions=[CASA, "Exact real arithmetic; sine and cosine are any functions with sin^2+cos^2=1 and their symmetries."],
    units=[dict(name="phaseshift", harness="phaseshift.cc", src=["steps/PhaseShift.cc", "base/FlagCounter.cc"] + STEP, real=True, reach=["anywhere", "shift", "refused"],
                params=[[0, h, 1, 1, 1, 1, 0] for h in range(3)] + [[0, 0, 2, 2, 4, 2, 0], [1, 0, 2, 3, 2, 2, 0], [1, 2, 1, 1, 1, 1, 0], [3, 0, 2, 2, 1, 1, 1], [3, 0, 2, 3, 2, 2, 0], [3, 1, 1, 2, 1, 1, 1], [3, 2, 1, 2, 1, 1, 1]] + [[2, w] for w in range(3)],
                max_time=150, solver_timeout=15000)])
CHECKS["C34"] = dict(
    bounds="1-3 baselines, 1-3 channels, 1-4 correlations, 1-3 time slots, any data and flags; every combination of Stokes parameters; 0-3 branches",
    assumptions=[CASA, "Exact real arithmetic.", "The steps of a branch are replaced by steps that record what they get."],
    units=[dict(name="simple", harness="simple.cc", src=["steps/NullStokes.cc", "steps/Combine.cc", "steps/Split.cc", "steps/Counter.cc", "steps/ResultStep.cc", "steps/MultiResultStep.cc", "base/FlagCounter.cc"] + STEP, real=True,
                reach=["stokes", "correlations", "add", "subtract", "badoperation", "kept", "count", "split", "badsplit"],
                params=[[0, m, 1, 1] for m in range(16)] + [[0, 5, 1, 2]] + [[1, n] for n in range(1, 5)] + [[2, a, b, 1] for a in (0, 1) for b in (0, 1)] + [[3, 0], [3, 1], [4, 0, 0], [4, 1, 0], [4, 1, 1], [5]] + [[6, n] for n in range(4)] + [[7, 0], [7, 1]])])
CHECKS["C38"] = dict(
    bounds="1-3 baselines of 3 antennas, 2-4 channels, 1-4 correlations, 1-4 time slots, any data, coordinates and flags (equal for the correlations of a visibility); 29 kinds of selections, alone, in pairs and in sets combined by expressions; all expressions of up to 4-5 tokens",
    assumptions=[CASA, "Exact real arithmetic.", "The text of times and angles is read by a stand-in for casacore, which also gives the sidereal time and the azimuth and elevation of every antenna."],
    units=[dict(name="preflag", harness="preflag.cc", src=["steps/PreFlagger.cc", "base/BaselineSelection.cc", "base/FlagCounter.cc"] + STEP, real=True, reach=["select", "expression", "malformed", "sets", "refused"],
                params=[[0, k, -1, 3, 4, 1, 0, 4 if k >= 21 else 1, 0] for k in list(range(16)) + list(range(21, 29))] +
                [[0, a, b, 3, 4, 1, m, 4 if b >= 21 else 1, g] for a, b, m, g in ((14, 0, 0, 0), (15, 6, 0, 0), (14, 21, 0, 0), (11, 15, 2, 0), (0, 11, 1, 0), (1, 12, 2, 0), (2, 13, 3, 0), (3, 22, 0, 0), (4, 24, 1, 0), (5, 28, 0, 0), (6, 27, 2, 0), (7, 26, 3, 0), (23, 12, 0, 0), (25, 13, 1, 0), (21, 11, 0, 1), (14, 21, 2, 0), (14, 27, 1, 0), (27, 28, 0, 0))] +
                [[0, k, -1, 3, 1, 1, 0, 1, 1] for k in (8, 9, 10)] + [[0, 8, 4, 2, 2, 1, 0, 1, 1], [0, 9, 4, 3, 1, 1, 2, 1, 0]] +
                [[0, k, -1, 1, 2, n, m, 1, 0] for k, n, m in ((16, 4, 0), (17, 2, 0), (18, 2, 0), (19, 2, 1), (20, 2, 2), (16, 4, 3))] + [[0, a, b, 1, 1, n, m, 1, 0] for a, b, n, m in ((17, 19, 2, 0), (19, 20, 2, 1), (16, 19, 4, 2), (18, 17, 2, 3), (20, 11, 2, 0))] +
                [[1, n, 0, 7, -1] for n in (1, 2, 3)] + [[1, 4, 0, 6, f] for f in (0, 2, 4)] + [[1, 2, 0, 15, -1]] + [[1, 3, 0, 15, f] for f in (0, 2, 4, 10)] + [[1, 5, 0, 6, 4]] +
                [[2, w, f, q] for w in range(4) for f in range(4) for q in ((-1, 10) if w < 2 else (-1, 0, 11))] + [[3, i] for i in range(21)],
                thorough=[[1, 4, 0, 7, f] for f in range(8)] + [[1, 4, 0, 15, f] for f in (0, 2, 4, 10)] + [[1, 5, 0, 6, f] for f in (0, 2, 4)])])
CHECKS["C39"] = dict(
    bounds="1-5 baselines of 2-4 antennas (all choices of antennas for up to 3 baselines), 1-4 channels, 1-4 correlations, any data; 15 selections of baselines and 9 of channels, with and without removal of antennas, one or two descriptions; subtables of 1-4 rows with all antenna numbers",
    assumptions=[CASA, "Exact real arithmetic for the lengths of baselines.", "Tables of the measurement set are kept in memory by a stand-in; casacore's antenna expressions select any set of baselines."],
    units=[dict(name="filter", harness="filter.cc", src=["steps/Filter.cc", "steps/MsReader.cc", "base/BaselineSelection.cc", "base/MS.cc", "base/FlagCounter.cc"] + STEP, real=True, reach=["select", "subtables", "limits", "malformed", "refused"],
                params=[[0, k, 5, 3, 2, 0, r, 1, 0, 3, 0] for k in range(14) if k != 13 for r in (0, 1)] + [[0, 13, 4, 2, 1, 0, 1, 0, 0, 3, 0]] +
                [[0, 0, 2, h, 2, c, r, 1, 0, 3, 0] for c in range(1, 9) for h, r in ((4, 0), (2, 1))] +
                [[0, k, 4, 4, 1, c, 1, 1, 1, 4, 0] for k, c in ((1, 0), (2, 1), (3, 3), (4, 4), (5, 5), (7, 0), (8, 6), (9, 1), (11, 8), (12, 1))] +
                [[0, 6, 1, 2, 1, 0, 0, 1, 1, 3, 0]] + [[0, k, 2, 2, 1, c, 1, 1, 0, 3, 1] for k, c in ((1, 0), (2, 1), (3, 0), (4, 1), (5, 0), (9, 1), (11, 0))] +
                [[1, n, b, 1, pr, r, x] for n, b, pr, r, x in ((3, 1, 31, 1, -1), (4, 2, 1, 2, -1), (3, 1, 6, 2, 1), (3, 1, 8, 2, -1), (3, 1, 48, 2, -1), (3, 2, 0, 1, 0), (4, 1, 48, 1, 4), (3, 1, 1, 2, 3))] + [[1, 3, 1, 0, 31, 1, -1], [1, 2, 1, 1, 62, 1, 0]] +
                [[2, k] for k in range(8)],
                thorough=[[0, k, 3, 2, 1, c, 1, 1, 0, 3, 1] for k, c in ((1, 0), (2, 1), (5, 0), (6, 0), (9, 1))] + [[1, 4, 2, 1, 48, 2, -1], [1, 3, 2, 1, 8, 2, 1], [1, 4, 1, 1, 48, 2, 2], [1, 4, 3, 1, 1, 1, -1]])])
MSREAD = ["steps/MsReader.cc", "base/BaselineSelection.cc", "base/MS.cc", "base/FlagCounter.cc"]
CHECKS["C40"] = dict(
    bounds="1-3 baselines, 1-4 channels, 4 correlations, 1-5 time slots with every choice of missing ones; 19 selections of time, 5 of channels, 5 kinds of weights, other columns, sorting, bands and baselines; any values including those that are not finite; times of up to 5 slots within the tolerance early by any amount or going back",
    assumptions=[CASA, "The measurement set is kept in memory by a stand-in for casacore's tables; coordinates of missing slots are any function.", "Autocorrelation weights and irregular times: exact real arithmetic."],
    units=[dict(name="read", harness="msread.cc", src=MSREAD + STEP, reach=["read", "settings", "none", "refused"],
                params=[[0, 2, 2, 4, m, 0, 0, 0, 15, 0, 0] for m in (0, 2, 4, 6)] + [[0, 1, 1, 5, m, s, 0, 0, 15, 0, 0] for s in range(19) for m in (0, 2, 6)] +
                [[0, 2, 3, 3, 2, 0, w, c, 15, 0, 0] for w in range(5) for c in (0, 1, 4)] + [[0, 2, 4, 2, 0, 0, 0, c, 15, 0, 2] for c in range(5)] +
                [[0, 2, 2, 3, 2, 0, 0, 0, f, 0, o] for f, o in ((1, 2), (2, 0), (3, 2), (4, 0), (8, 0), (7, 1), (14, 16), (0, 0), (15, 16))] +
                [[0, 3, 2, 3, 2, 0, w, 1, 15, 0, o] for w, o in ((0, 4), (1, 8), (0, 32), (3, 66), (2, 36), (0, 72))] +
                [[0, 1, 1, 2, 0, 0, 0, 0, 15, 1, 0], [0, 2, 1, 1, 0, 0, 0, 0, 3, 1, 1], [0, 1, 2, 1, 0, 0, 0, 2, 3, 1, 0]] + [[3, k, 0] for k in range(10)] + [[3, 4, 1]],
                thorough=[[0, 1, 1, 5, m, s, 0, 0, 15, 0, 0] for s in range(19) for m in range(2, 16, 2)] + [[0, 2, 1, 1, 0, 0, 0, 0, 15, 1, 0]]),
           dict(name="real", harness="msread.cc", src=MSREAD + STEP, real=True, reach=["autoweight", "settings", "jitter"],
                params=[[1, f, r, b] for f, r, b in ((3, 1, 5), (1, 2, 4), (2, 1, 5), (0, 2, 5), (3, 0, 2), (3, 1, 3), (1, 1, 6))] + [[2, n, k] for n in (1, 2, 3) for k in (0, 1)] + [[2, 4, 2], [2, 5, 2]],
                thorough=[[2, n, k] for n in (4, 5) for k in (0, 1)])])
CHECKS["C41"] = dict(
    bounds="5 stations, 5 lists of 3-6 baselines in both orientations with and without autocorrelations, 8 definitions of up to two new stations, 1-2 channels, 1-2 correlations, minpoints 0-3; names of up to 3 characters against 10 lists of patterns; new stations of 2 parts at any place",
    assumptions=[CASA, "Exact real arithmetic; weights are above zero.", "The calculated coordinates of a baseline are any function; the tables are kept in memory by a stand-in."],
    units=[dict(name="add", harness="stationadd.cc", src=["steps/StationAdder.cc", "base/FlagCounter.cc"] + STEP, real=True,
                reach=["few", "enough", "uvw", "calc", "nothing", "place", "refused", "match", "tables", "lofar", "new clock"],
                params=[[0, m, 0, 1, 1, 0, -1, 0] for m in range(8)] + [[0, m, 1, 1, 1, o, 2, 0] for m in (0, 1, 6) for o in (1, 3, 13)] +
                [[0, m, b, 2, 2, o, k, f] for m, b, o, k, f in ((3, 3, 1, 2, 9), (3, 3, 7, 0, 1), (4, 3, 9, 2, 2), (4, 2, 4, 1, 9), (2, 4, 1, -1, 0), (2, 4, 3, 2, 9), (5, 3, 8, 3, 1), (6, 3, 5, 1, 9), (1, 3, 12, -1, 9))] +
                [[0, m, b, 1, 2, 1, 2, 0] for m, b in ((3, 3), (4, 3), (1, 1), (6, 2))] +
                [[1, 2]] + [[2, s, n, l] for s in range(10) for n, l in ((1, 3), (2, 2))] + [[3, k] for k in range(3)] + [[4, m, 0, 0] for m in (0, 3, 7)] + [[4, m, 1, 2] for m in (0, 3, 4, 7)],
                thorough=[[0, m, b, c, 1, o, k, 0] for m in range(8) for b in range(5) for c in (1, 2) if b in (0, 2) or c == 1 for o in (0, 1, 3, 12) for k in (-1, 2)] + [[1, 3]] + [[2, s, 2, 3] for s in range(10)] + [[4, m, 1, 3] for m in range(8)])])
