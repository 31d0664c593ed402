PROPS = []
def P(id, title, statement, q, why, files, mech, note=None, over=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, note=note, na=na, over=over or ["inputs"]))

P("C01", "Baseline indices and station pairs map one to one",
  "For every number of stations and either ordering, the baseline numbers of all station pairs (autocorrelations included) are "
  "exactly 0 to count-1 without duplicates, independent of the order in which the two stations are given. Converting a baseline number "
  "back to its station pair, and listing all baselines, agree with that numbering, also for station counts whose baseline count exceeds 32 bits.",
  "All station counts, orderings and station pairs within the bounds.",
  "The tests compare a handful of pairs for a few small station counts; large counts and every pair are never reached.",
  ["common/baseline_indices.h"],
  [("ComputeBaselineIndex", "common/baseline_indices.h"), ("ComputeBaseline", "common/baseline_indices.h"), ("ComputeBaselineList", "common/baseline_indices.h")],
  "Every index for up to 32 stations, every pair up to 576, windows of pairs up to 200000 stations; floating point square root bit-precise.")
P("C02", "Integer settings are converted exactly or rejected",
  "Text is converted to an integer exactly when it is entirely one well-formed decimal or hexadecimal number, surrounded by optional "
  "blanks, and it fits the requested signed or unsigned type; then the result equals the written value. Every other non-blank text is rejected with an error, "
  "never silently truncated, wrapped or partially used.",
  "All texts and all ten integer target types.",
  "Tests sample a few literals per type; the limits of every type and arbitrary trailing bytes are not reachable by sampling.",
  ["common/StringTools.cc", "common/StringTools.h"],
  [("strToLong and siblings", "common/StringTools.cc")],
  "All byte strings up to 3-4 characters and digit windows at each type's limits.")
P("C03", "Floating point and boolean settings are converted or rejected",
  "Text is converted to a floating point value only when it is entirely one well-formed number, and values that do not fit the type are rejected. "
  "A boolean is decided by its first character: t, y or 1 is true and f, n or 0 is false in either case; every other text is rejected with an error.",
  "All texts for double, float and bool.",
  "Tests sample a few literals; trailing garbage, case combinations and range limits are unbounded.",
  ["common/StringTools.cc"],
  [("strToDouble, strToFloat, strToBool", "common/StringTools.cc")],
  "All byte strings up to 4 (bool: 3) characters; exponent windows at the type limits; strtod itself is a model validated by replay.")
P("C04", "Lexical helpers respect blanks, quotes, brackets and delimiters",
  "Skipping blanks, quoted parts or bracketed parts of a text always lands exactly behind that part, never outside the text, and an unterminated quote or bracket is "
  "reported as an error. Splitting a text at delimiters yields exactly the non-empty pieces in order, and text comparison gives a consistent order.",
  "All texts and all sub-ranges within the bounds.",
  "Tests use a few fixed strings; nested, adjacent and truncated forms are combinatorial.",
  ["common/StringTools.cc"],
  [("lskipws, rskipws, skipQuoted, skipBalanced", "common/StringTools.cc"), ("tokenize, stringtools comparison", "common/StringTools.cc")],
  "All byte strings up to 6 characters.")
P("C05", "Ranges in settings expand to the complete series",
  "A range with optional prefix, suffix or braces expands to every number from its start to its end inclusive, ascending or descending, each with the "
  "width of the start number and the same prefix and suffix. Text outside ranges and inside quotes is left unchanged, expansion always ends, and only an unterminated quote or a number beyond the integer range is an error.",
  "All start/end numbers, affixes, notations and surrounding texts.",
  "Tests expand about ten fixed strings; widths, directions, limits and embeddings multiply.",
  ["common/StringTools.cc"],
  [("expandRangeString", "common/StringTools.cc"), ("expandArrayString", "common/StringTools.cc")],
  "Number pairs up to 3 digits spanning at most 11 steps with free affix letters; arbitrary syntax strings up to 5 characters.")
P("C06", "Repetitions in settings expand to exactly that many copies",
  "A repetition of a value, a parenthesised list, a bracketed vector or a quoted string expands to exactly the requested number of copies separated by commas, also when nested or "
  "combined with a range. Text without a repetition, quoted text and text that is not a bracketed array is left unchanged.",
  "All counts, values, nestings and surrounding texts.",
  "Tests expand a few fixed strings.",
  ["common/StringTools.cc"],
  [("expandMultString", "common/StringTools.cc"), ("expandArrayString", "common/StringTools.cc")],
  "Counts 0-5, values of 0-2 free letters, eight notations; arbitrary syntax strings up to 5 characters.")

P("C07", "Pipeline steps get every field they need, and no field read needlessly",
  "The set of data fields a chain of steps needs from its input is exactly the set of fields that some step requires while no earlier step provided it. "
  "Uniting, subtracting and comparing sets of fields behave like sets, and a printed set names exactly its members.",
  "All sets of fields and all chains of steps within the bounds.",
  "Tests combine a few field sets; all sets and all chains are combinatorial.",
  ["common/Fields.h", "common/Fields.cc"],
  [("Fields operators, UpdateRequirements", "common/Fields.h")],
  "All field sets; chains of up to 6 steps (thorough 8) with arbitrary requirements and provisions.")
P("C08", "Resampled calibration solutions follow the solution intervals of each direction",
  "When directions have different numbers of solutions per interval, the resampled solutions hold, for every sub-interval and direction, the solution of that direction valid in "
  "that sub-interval, for every antenna, polarisation and channel block, and constraint results and weights are resampled the same way. No other value is used and none is lost.",
  "All numbers of directions, solutions per direction, antennas, polarisations, channel blocks, intervals within the bounds and all values.",
  "Tests resample a couple of fixed shapes.",
  ["ddecal/SolutionResampler.cc", "ddecal/SolutionResampler.h"],
  [("SolutionResampler::Upsample", "ddecal/SolutionResampler.cc")],
  "1-4 directions with 1-6 solutions, 1-3 antennas, 1-4 polarisations, 1-3 channel blocks, 1-2 intervals; values symbolic.")
P("C09", "The median is the middle of the sorted values",
  "For every list of finite numbers the median equals the middle value in sorted order, or the mean of the two middle values for an even count, whatever the order of the input. "
  "An empty list gives zero, and the values in the list are at most reordered.",
  "All lists of values within the bounds.",
  "Tests use a few lists; orderings and ties are factorial.",
  ["common/Median.h"], [("Median", "common/Median.h")],
  "Up to 5 ints, 3 floats and 2 doubles (thorough 6, 4, 4), bit-precise.")
P("C10", "Calibration types and receiver modes map to and from their names exactly",
  "Every documented calibration type is selected by exactly its name, prints as a name that selects it again, and every other text is rejected. "
  "Receiver mode numbers and names correspond one to one, and unknown modes give an error instead of another mode.",
  "All texts and all mode numbers within the bounds.",
  "Tests check a few names; near-miss texts and all numbers are not reachable by sampling.",
  ["base/CalType.cc", "base/CalType.h", "base/RcuMode.h"],
  [("StringToCalType, ToString", "base/CalType.cc"), ("RcuMode", "base/RcuMode.h")],
  "All texts of up to 5 bytes, every name with one character changed or appended; all 32-bit mode numbers.")
P("C11", "Applying gains multiplies each visibility by its two station gains",
  "Applying station gain matrices to simulated visibilities replaces every visibility matrix of a baseline and channel by left gain times visibility times conjugate transpose of the right gain. "
  "Autocorrelations and memory outside the addressed visibilities stay unchanged.",
  "All gains, visibilities, strides and baselines within the bounds.",
  "Tests do not call this kernel; index and conjugation errors depend on shapes and values.",
  ["base/Apply.cc", "base/Apply.h"], [("apply", "base/Apply.cc")],
  "Up to 3 stations, 3 baselines, 2 channels, padded strides; exact real arithmetic.")
P("C12", "Subtracting simulated sources removes exactly the mixed model visibilities",
  "Subtracting a simulated source subtracts from every cross-correlation visibility the model visibility multiplied by its mixing weight, for every channel and polarisation. Autocorrelations and "
  "memory outside the addressed visibilities stay unchanged, and the reported powers before and after are the sums over the valid parallel-hand visibilities only.",
  "All data, models, mixing weights, strides and baselines within the bounds.",
  "Tests do not call this kernel.",
  ["base/SubtractMixed.cc", "base/SubtractMixed.h"], [("subtract", "base/SubtractMixed.cc")],
  "Up to 3 baselines, 2 channels, padded strides; exact real arithmetic; NaN handling for one baseline.")
P("C13", "Byte order conversion and flag packing lose no data",
  "Converting arrays of integers, floating point and complex values between byte orders reverses exactly the bytes of each value, so that converting twice restores the data. "
  "Packing booleans to bits and unpacking them restores every value at any start bit and changes no other bits.",
  "All array contents, lengths and start bits within the bounds.",
  "Tests do not cover this code; start bits and lengths interact.",
  ["common/DataConvert.cc", "common/DataConvert.h"],
  [("dataConvert16/32/64, byteSwap", "common/DataConvert.cc"), ("boolToBit, bitToBool", "common/DataConvert.cc")],
  "Arrays of up to 3 values of 2, 4, 8 bytes with all contents; up to 11 bits at start bits 0 to 17.")
P("C14", "A file is attributed to the file system with the deepest matching mount point",
  "For every file name and list of mount points, the file system found is the one whose mount point is the longest leading directory of the name (automounter prefix disregarded), and none is found when no mount point "
  "matches. A mount point that only shares leading letters with a directory name is never chosen.",
  "All file names and mount points within the bounds.",
  "Tests do not cover this code.",
  ["common/NodeDesc.cc", "common/NodeDesc.h"], [("NodeDesc::findFileSys", "common/NodeDesc.cc")],
  "Names of up to 7 characters, 2 mount points of up to 5 characters over slash and two letters.")
P("C15", "List and string settings parse into exactly the elements written",
  "A bracketed list splits into exactly its top-level elements with surrounding blanks removed, respecting quotes, parentheses and nested brackets; a single value is a one element list. "
  "A quoted string yields its text without the quotes, numeric lists yield exactly the written numbers, and malformed lists, quotes or numbers give an error.",
  "All texts within the bounds.",
  "Tests do not cover this code; nesting and quoting are combinatorial.",
  ["common/ParameterValue.cc", "common/ParameterValue.h", "common/StringTools.cc"],
  [("ParameterValue::getVector, splitValue", "common/ParameterValue.cc"), ("getString, getIntVector and siblings", "common/ParameterValue.cc")],
  "Bodies of up to 5 characters over syntax alphabets, up to 2 elements of six forms, numbers of 1-4 digits.")
P("C16", "Record settings parse into exactly the named fields",
  "A braced record splits into exactly its top-level name and value pairs with blanks and quotes around names removed, and nested lists, records and quoted parts stay whole. Malformed records give an error.",
  "All records within the bounds.",
  "Tests do not cover this code.",
  ["common/ParameterValue.cc", "common/ParameterRecord.cc"],
  [("ParameterValue::getRecord", "common/ParameterValue.cc"), ("ParameterRecord", "common/ParameterRecord.cc")],
  "Records of up to 2 fields of 4x4 notations; bodies of up to 5 characters.")
P("C17", "Time settings with a unit are scaled to seconds and never overrun buffers",
  "A time setting made of a whole number and an optional unit yields seconds: a unit starting with s, m or h in either case counts seconds, minutes or hours, and no unit counts seconds. Text that does not start with a number gives an error, and no text, however long its unit, makes the reader write outside its buffers.",
  "All texts within the bounds.",
  "Tests do not cover this code; long units are unusual input.",
  ["common/ParameterValue.cc"], [("ParameterValue::getTime", "common/ParameterValue.cc")],
  "Numbers of 1-4 digits with units of 0, 1, 3 and 1100 letters; arbitrary texts of up to 3 bytes.")
P("C18", "A parameter file is read line by line into exactly its key and value pairs",
  "Reading settings text yields exactly one parameter per assignment, with blanks, comments and empty lines ignored, continuation lines joined and quoted comment signs kept; a later assignment of the same key wins and a malformed line gives an error. "
  "Writing the settings and reading them back gives the same settings.",
  "All texts within the bounds.",
  "Tests do not cover this code; line forms combine freely.",
  ["common/ParameterSetImpl.cc", "common/ParameterSet.cc"],
  [("ParameterSetImpl::readStream, addMerge", "common/ParameterSetImpl.cc"), ("writeStream", "common/ParameterSetImpl.cc")],
  "Texts of up to 3 lines in eleven forms, arbitrary texts of up to 5 characters over two alphabets, round trips of 2 values of up to 3 characters.")
P("C19", "Overriding and selecting settings affects exactly the named settings",
  "Adding, replacing, removing and adopting settings, with or without a prefix, changes exactly the settings named and the last value wins; adding an existing one gives an error. "
  "A subset holds exactly the settings whose names start with its prefix, with the new prefix, with or without regard of letter case as chosen.",
  "All names, prefixes and operations within the bounds.",
  "Tests do not cover this code.",
  ["common/ParameterSetImpl.cc", "common/ParameterSet.cc"],
  [("add, replace, remove, adoptCollection", "common/ParameterSetImpl.cc"), ("makeSubset", "common/ParameterSetImpl.cc")],
  "Up to 3 names of 1-3 characters, prefixes of 0-2 characters.")
P("C20", "Unused settings are reported exactly, and defaults apply only to absent settings",
  "The settings reported as unused are exactly those never asked for, however they were asked for and in whatever letter case a case-insensitive set allows. "
  "A default is returned only when the setting is absent, and asking for an absent setting without default gives an error.",
  "All ways of access and letter cases within the bounds.",
  "Tests do not cover this code.",
  ["common/ParameterSetImpl.cc", "common/ParameterSet.cc", "common/ParameterSet.h"],
  [("unusedKeys, findKV", "common/ParameterSetImpl.cc"), ("get and its typed variants", "common/ParameterSet.cc")],
  "Three parameters, eleven ways of access, with and without letter case.")
P("C21", "Axis cells are found, selected, merged and thinned exactly",
  "Looking up a value on a parameter axis gives the cell that contains it, and the values falling in holes or outside are reported as such whatever cell the search starts at. "
  "A sub-range selects exactly the cells inside it, two axes that agree where they overlap combine to the union of their cells and others give an error, and thinning merges exactly the stated number of cells.",
  "All axes, values, ranges and search hints within the bounds.",
  "Tests do not cover this code; holes, borders and hints combine.",
  ["parmdb/Axis.cc", "parmdb/Axis.h"],
  [("Axis::locate, find", "parmdb/Axis.cc"), ("RegularAxis/OrderedAxis::doSubset, compress", "parmdb/Axis.cc"), ("Axis::combine, checkTwoWidths", "parmdb/Axis.cc")],
  "Axes of up to 4 cells with all hole patterns; combining all pairs of sub-ranges of 4 cells; thinning of 5 cells by up to 6.")
P("C22", "Domain boxes and grids cover exactly the cells they are made of",
  "Boxes intersect, contain, unite and compare as the rectangles they describe. A grid made from a list of boxes or grids, in any order, has exactly the cells of its parts in the right place, and listing the domains of a grid gives every cell once, in order.",
  "All boxes and grids within the bounds.",
  "Tests do not cover this code; orders, holes and shapes combine.",
  ["parmdb/Box.cc", "parmdb/Box.h", "parmdb/Grid.cc", "parmdb/Grid.h"],
  [("Box", "parmdb/Box.h"), ("Grid::init, setup, toDomains, checkIntervals", "parmdb/Grid.cc")],
  "All pairs of boxes; up to 3x3 cells; up to 2x3 grids of 1x2 cells.")
P("C23", "Mapping one axis onto another gives the right cell and fraction for every value",
  "For every cell of a request axis, the mapping names the cell of the parameter axis that holds the centre of the requested cell (the last or next one when there is none), gives the position of that centre scaled to the cell, and marks where the mapped cell changes. A mapping asked for again is the same mapping.",
  "All pairs of axes within the bounds, at any relative position.",
  "Tests do not cover this code; the relative positions are unbounded.",
  ["parmdb/AxisMapping.cc", "parmdb/AxisMapping.h"], [("AxisMapping", "parmdb/AxisMapping.cc"), ("AxisMappingCache", "parmdb/AxisMapping.cc")],
  "Up to 3 to 3 cells.")
P("C24", "A sky model source has exactly the flux, shape and summary its description gives",
  "The brightness of a source at a frequency follows its reference flux, spectral terms (logarithmic or linear) and rotation measure, and every other quantity of a source is the one set. "
  "The summary of a component describes that component only, whatever was summarised before, and the brightness of a patch is the sum, and its position a direction, of its components.",
  "All fluxes, spectral terms, angles and orders of inspection within the bounds.",
  "Tests do not cover the formulas for all inputs or the reuse of a summary object.",
  ["base/PointSource.cc", "base/GaussianSource.cc", "base/ComponentInfo.cc", "sky_model/Patch.cc"],
  [("PointSource::GetStokes", "base/PointSource.cc"), ("GaussianSource", "base/GaussianSource.cc"), ("ComponentInfo::Inspect", "base/ComponentInfo.cc"), ("Patch::ComputeDirection", "sky_model/Patch.cc")],
  "0-4 spectral terms; 3 components inspected in sequence; patches of 0-3 components.")
P("C25", "Least squares solvers solve the problem they are given and report failure",
  "Whatever the sizes and the number of right hand sides, each least squares solver hands its matrix and right hand sides unchanged to the numerical library with consistent sizes and buffers, returns the solution found in the right place, and reports a failed solve. "
  "Solver names are recognised exactly, in any letter case, and any other name gives an error.",
  "All matrices, right hand sides and library outcomes within the bounds.",
  "Tests sample one matrix; leading dimensions and work space only go wrong for some sizes.",
  ["ddecal/linear_solvers/LLSSolver.cc", "ddecal/linear_solvers/LLSSolver.h", "ddecal/linear_solvers/QRSolver.h", "ddecal/linear_solvers/SVDSolver.h", "ddecal/linear_solvers/NormalEquationsSolver.h"],
  [("LLSSolver::Make, ParseType", "ddecal/linear_solvers/LLSSolver.cc"), ("QRSolver, SVDSolver, NormalEquationsSolver", "ddecal/linear_solvers")],
  "Matrices of up to 4x3 and 3 right hand sides, two solves in sequence.")
P("C26", "Timers account exactly for the time between start and stop",
  "Whatever the sequence of starting, stopping, resetting, adding and merging, a timer reports exactly the total time between its starts and stops and their number. A scope that is left, also by an error, stops its timer.",
  "All operation sequences and clock readings within the bounds.",
  "Tests check a single measured sleep.",
  ["common/Timer.h"], [("BaseTimer, NSTimer, ScopedMicroSecondAccumulator", "common/Timer.h")],
  "Sequences of up to 3 operations on two timers.")
P("C27", "Phase model fits solve the stated model and report matching phases and cost",
  "Fits of delay, offset and electron content hand exactly the stated model, weights and data to the numerical library and return its solution or report its failure, and the grid search returns the fit with the lowest cost. "
  "The cost of a fit is the (weighted) wrapped phase distance to the model of the returned parameters, fitted phases follow that model, and evaluated phases lie between -pi and pi. "
  "A fit does not depend on the parameter values passed in.",
  "All data, weights, library outcomes and initial values within the bounds.",
  "Tests do not cover this code; phase wraps, library failures and stale parameter values combine.",
  ["base/PhaseFitter.cc", "base/PhaseFitter.h", "ddecal/constraints/TecOffsetDelayFitting.cc"],
  [("PhaseFitter", "base/PhaseFitter.cc"), ("LinearTecOffsetDelaySolve, GradientTecOffsetDelaySolve, TecOffsetDelayGridSearch", "ddecal/constraints/TecOffsetDelayFitting.cc")],
  "3-4 frequencies; one wrap in the grid search; up to 200 iterations of the minimiser.")
P("C28", "The data description stays consistent when data are selected and averaged",
  "After any sequence of selecting or averaging channels and times, the channel frequencies, widths and bandwidths (the total included), the interval, the first and last time and the counts describe exactly the remaining data. "
  "After selecting baselines and removing or re-setting antennas, every baseline refers to the same antennas as before, with the right length, autocorrelation and used-antenna lists. Inconsistent descriptions are refused and leave the old description in place.",
  "All frequencies, times, positions, selections and factors within the bounds.",
  "The tests of this code cannot be built here and sample a few sequences.",
  ["base/DPInfo.cc", "base/DPInfo.h"],
  [("setTimes, setChannels, SelectChannels, update", "base/DPInfo.cc"), ("setAntennas, setAntUsed, removeUnusedAnt, SelectBaselines", "base/DPInfo.cc")],
  "1-4 channels, 1-6 times, 2-3 antennas, sequences of 2 operations.")
P("C29", "Visibility buffers keep every value of every row through every operation",
  "Whatever sequence of adding rows, adding, removing, renaming, copying and moving named data, clearing and copying whole buffers is done, a buffer holds for every row exactly the values, flags, weights, coordinates and description that were put there, under the right names, and copies are independent. "
  "A row is refused exactly when it does not fit or when it ends before the last row starts, and a refused row changes nothing. Comparing the descriptions of two buffers reports exactly whether they are equal within the time tolerance.",
  "All values and operation sequences within the bounds.",
  "The tests of this code cannot be built here and try single operations; combinations of fields, names and orders go wrong together.",
  ["base/BdaBuffer.cc", "base/BdaBuffer.h", "base/DPBuffer.cc", "base/DPBuffer.h"],
  [("BdaBuffer::AddRow, MoveData, Clear, copy", "base/BdaBuffer.cc"), ("DPBuffer::Copy, CopyData, MoveData, SetSolution", "base/DPBuffer.cc")],
  "Buffers of 4-8 elements, sequences of 2-3 operations.")
P("C30", "Averaging in time and frequency gives the weighted mean of the unflagged data",
  "Each averaged visibility is the weighted mean of the unflagged visibilities it covers, and its weight is their total weight. It is flagged exactly when too little unflagged data is left (by the minimum number, the minimum percentage or a zero weight), and then holds the mean over all its data. "
  "Times, exposures, coordinates, channels and the number of averages match the averaging steps, also for a last interval that is not full, and a factor given as a resolution is that resolution in units of channels or intervals, rounded.",
  "All visibilities, weights, flags, coordinates and times within the bounds.",
  "The tests of this step cannot be built here and use one formula for the data with regular flags.",
  ["steps/Averager.cc", "steps/Averager.h"],
  [("process, average, finish", "steps/Averager.cc"), ("updateInfo", "steps/Averager.cc")],
  "Up to 2 baselines, 6 channels, 2 correlations, 5 times.")
P("C31", "Baseline-dependent averaging and expanding keep every baseline's data",
  "Every baseline is averaged over as many times and channels as its length and the settings say, at least one and never more channels than there are. Each averaged visibility is the weighted mean of the unflagged ones it covers with their total weight, and times, exposures, coordinates and frequencies are those of the covered cells. "
  "Expanding gives every regular time slot exactly once, in order, as soon as all baselines have arrived, with the value of the averaged cell it lies in and an equal share of its weight, however the rows are ordered and divided over buffers. A given averaging scheme is reproduced or refused.",
  "All visibilities, weights, flags and coordinates within the bounds.",
  "The tests of these steps cannot be built here and use a few fixed schemes without zero weights or extreme settings.",
  ["steps/BDAAverager.cc", "steps/BDAAverager.h", "steps/BdaExpander.cc", "steps/BdaExpander.h"],
  [("BdaAverager::updateInfo, process, AddBaseline", "steps/BDAAverager.cc"), ("BdaExpander::process, CopyData", "steps/BdaExpander.cc")],
  "Up to 4 baselines, 5 channels, 6 times; at least one baseline keeps all channels when expanding.")
P("C32", "Upsampling in time gives every part of every interval exactly once",
  "Each input time slot becomes the requested number of equally long time slots that together cover its interval, with the data, flags and weights of the input, an equal share of its exposure, and on request the baseline coordinates of their own time. "
  "Where parts of two successive inputs have the same time only one is kept: that of the later input, unless the later input is flagged completely. Nothing is lost or kept back at the end, also when no data come at all.",
  "All data, flags, exposures and coordinates; all small deviations of the times.",
  "The tests of this step cannot be built here and use one series of times.",
  ["steps/Upsample.cc", "steps/Upsample.h"],
  [("process, finish, updateInfo", "steps/Upsample.cc")],
  "Up to 4 times of up to 5 parts; the intervals of an input and the one after the next do not overlap.")
P("C33", "Flagging on baseline coordinates flags exactly the asked ranges",
  "A visibility is flagged when it was flagged before or when its u, v, w or distance in the plane, in metres or in wavelengths of its own channel, lies inside one of the ranges asked for as a series of limits, a centre with a half width, a minimum or a maximum; nothing else changes. "
  "This holds for regular and baseline-dependent data, and with coordinates calculated for another direction when one is given. The counts tell how many visibilities were newly flagged, and malformed ranges and directions are refused.",
  "All coordinates, times, flags and data within the bounds.",
  "The tests of this step cannot be built here and use coordinates on a coarse grid.",
  ["steps/UVWFlagger.cc", "steps/UVWFlagger.h", "base/FlagCounter.cc"],
  [("doFlag, testUVWm, testUVWl, fillUVW, handleCenter", "steps/UVWFlagger.cc"), ("showBaseline, showChannel", "base/FlagCounter.cc")],
  "Limits are a handful of fixed values; at most two coordinates at a time; wavelengths to one part in a million.")
P("C34", "Steps that combine, split, count, keep or null data change nothing else",
  "Combining adds or subtracts the named data to or from the main data and removes the named data; nulling a Stokes parameter makes exactly that one zero and keeps the others, and is refused without four correlations. "
  "Splitting gives every branch its own values of the varied settings and its own copy of all data; counting reports the percentages of flagged visibilities per baseline, station and channel; kept buffers equal what came in. All other parts of the data are passed on unchanged.",
  "All data, flags, weights, coordinates and times; all combinations of Stokes parameters.",
  "The tests of these steps cannot be built here and use fixed patterns of data.",
  ["steps/Combine.cc", "steps/NullStokes.cc", "steps/Split.cc", "steps/Counter.cc", "steps/ResultStep.h", "steps/MultiResultStep.cc", "base/FlagCounter.cc"],
  [("process", "steps/Combine.cc"), ("process", "steps/NullStokes.cc"), ("constructor, process", "steps/Split.cc"), ("process, showCounts", "steps/Counter.cc")],
  "Up to 2 baselines, 2 channels, 4 correlations, 3 times, 3 branches.")
P("C35", "Shifting the phase centre turns data and coordinates consistently",
  "After a shift the coordinates of every baseline are those of the same physical baseline seen from the new direction, and each visibility is turned by the change of its path in wavelengths of its channel, keeping its amplitude. "
  "Flags and weights are unchanged, the description carries the new phase centre, without a direction the shift goes back to the original centre, and malformed directions are refused. Giving the description again uses the new channels.",
  "All pairs of directions, frequencies, coordinates and data.",
  "The tests of this step cannot be built here and use two directions.",
  ["steps/PhaseShift.cc", "steps/PhaseShift.h"],
  [("updateInfo, process, fillEulerMatrix, handleCenter", "steps/PhaseShift.cc")],
  "Up to 2 baselines, 3 channels, 4 correlations, 2 times; exact reals.")
P("C36", "Predicted visibilities follow from the source's place, shape and brightness",
  "The visibility added for a source is its brightness in each correlation turned by the path difference towards it relative to the phase centre, damped by its Gaussian shape (position angle from north over east, absolute or relative) and by the requested time and frequency smearing; autocorrelations get nothing and what was there is kept. "
  "The brightness at a frequency follows the logarithmic or polynomial spectral terms, and the polarized part turns with the rotation measure.",
  "All brightnesses, spectral terms, frequencies and visibilities already present; given directions, baselines and channels.",
  "The simulator cannot be built here, and tests compare a few sources with stored numbers.",
  ["base/Simulator.cc", "base/Simulator.h", "base/PointSource.cc", "base/GaussianSource.cc", "base/Stokes.cc"],
  [("visit(PointSource), visit(GaussianSource), phases, spectrum, radec2lmn", "base/Simulator.cc"), ("stokes", "base/PointSource.cc")],
  "3 stations, 3 baselines, 3 channels, 4 pairs of directions, up to 3 spectral terms; reals, tolerance 1e-4 where geometry is given.")
P("C37", "Antenna coordinates are recovered from baseline coordinates",
  "For any set of baselines the split gives each antenna the coordinates relative to the first antenna of its group, so that differences reproduce every baseline of the set, whatever groups the baselines form. "
  "With antenna positions the longest baselines are used: none that is left out is longer than those on the path replacing it. Turning coordinates to another direction gives the baseline seen from there.",
  "All sets of baselines between the antennas and all coordinates.",
  "The number of sets of baselines, with gaps, groups and autocorrelations, is too large for examples.",
  ["base/Simulate.cc", "base/Simulate.h"],
  [("SetupUvwSplitting, GetBaselineSelection, SplitUvw, rotateUVW", "base/Simulate.cc")],
  "2-4 antennas and up to 4 baselines (3 of 3 antennas in the quick check); exact reals.")
P("C38", "Pre-flagging flags exactly what the selection describes",
  "The pre-flagger flags a baseline, channel and time exactly when every selection given matches it (baseline names, type and length, coordinates, time in its several forms, azimuth and elevation, channel, amplitude, phase, real and imaginary limits per correlation), and in each mode (set, clear and their complements) flags change only as that mode says; all correlations get the same flag. "
  "Named sets are combined by the logical expression with the usual precedence of not, and, or and parentheses. A selection that matches nothing flags nothing, giving the description again does not change the result, and malformed selections and expressions are refused.",
  "All data, coordinates, existing flags, times and lengths; every combination listed in the bounds; all expressions of the given number of tokens.",
  "The tests of this step cannot be built here, and combinations of selections, modes and expressions are too many for examples.",
  ["steps/PreFlagger.cc", "steps/PreFlagger.h", "base/BaselineSelection.cc"],
  [("PSet::process, flagUV, flagBL, flagAzEl, flagAmpl, flagPhase, flagReal, flagImag, flagChannels, exprToRpn, fillTimes", "steps/PreFlagger.cc")],
  "1-3 baselines, 2-4 channels, 1-4 correlations; expressions of up to 5 tokens; exact reals.")
P("C39", "Filtering keeps exactly the selected baselines, channels and antennas",
  "The data, flags, weights, coordinates and row numbers passed on are exactly those of the selected baselines (names, casacore's expressions, type, length ranges, all combined) and channels, unchanged and in order, and the description says the same. "
  "Removing antennas renumbers the rest consistently in the description and in every subtable of the written measurement set, dropping only what belongs to removed antennas. A selection of nothing is refused, and a second description forgets the first.",
  "All choices of antennas, data, lengths, antenna numbers in the subtables within the bounds.",
  "The tests of this step cannot be built here and use one selection of each kind.",
  ["steps/Filter.cc", "steps/Filter.h", "base/BaselineSelection.cc", "base/DPInfo.cc"],
  [("updateInfo, process, addToMS, createIdMap, renumberSubTable", "steps/Filter.cc"), ("apply, handleBL, handleLength", "base/BaselineSelection.cc"), ("SelectChannels, SelectBaselines, RemoveUnusedAntennas", "base/DPInfo.cc")],
  "1-5 baselines of 2-4 antennas, 1-4 channels, 1-4 correlations; subtables of up to 4 rows kept in memory by a stand-in.")
P("C40", "Reading a measurement set gives every time slot once, in order",
  "Every time slot in the asked range comes exactly once and in order, also when times are irregular within the tolerance; a slot that is missing comes fully flagged with zero data and weights, calculated coordinates and the interval as exposure. "
  "Data, weights, coordinates and row numbers are those stored for the selected channels, baselines, band and columns, and a visibility is flagged exactly when a correlation is flagged or not finite or its row is flagged. The description matches the measurement set, weights follow from autocorrelations when asked, and what cannot be read is refused.",
  "All data including values that are not finite, flags, weights, coordinates, choices of missing slots and times within the tolerance.",
  "The reader needs measurement sets on disk and cannot be built here; tests use regular data without odd values.",
  ["steps/MsReader.cc", "steps/MsReader.h"],
  [("process, FlagInfinityNan, ParseTimeSelection, SkipFirstTimes, InitializeColumns, InitializeIterator, getUVW, GetWeights, AutoWeight", "steps/MsReader.cc")],
  "1-3 baselines, 1-4 channels, 4 correlations, 1-5 slots; the tables are an in-memory stand-in for casacore.")
P("C41", "A superstation is the sum of its parts",
  "Every baseline between another station and a new station (also another new station) is the weighted sum or average of exactly the existing baselines between that station and the members, conjugated when the member comes first, with the weights added up; autocorrelations are formed only when asked. "
  "It is flagged exactly when no point or fewer than the minimum are unflagged (flagged points then count), its coordinates are the weighted average or are calculated, and existing baselines stay as they were. "
  "A new station lies in the middle of its parts and covers them, patterns of names select as documented, conflicting definitions are refused, and the subtables of the written measurement set get the matching rows.",
  "All data, weights, flags, coordinates, positions, diameters, names, antenna fields and clocks within the bounds.",
  "The tests of this step cannot be built here and use one set of baselines with all flags equal.",
  ["steps/StationAdder.cc", "steps/StationAdder.h", "common/StringTools.cc"],
  [("updateInfo, process, GetMatchingStations, addToMS, updateBeamInfo", "steps/StationAdder.cc"), ("PatternToRegex", "common/StringTools.cc")],
  "5 stations, 3-6 baselines, up to two new stations, 1-2 channels and correlations; exact reals; weights above zero; the conjugate is taken per correlation.")
