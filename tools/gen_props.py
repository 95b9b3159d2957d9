# -*- coding: utf-8 -*-
"""Writes /verif/properties.jsonl (the texts live here)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("C01", "Coalescence is the geometric mean of the time-shifted onset functions",
  "For every grid node and every sample of the scan window, the migrated coalescence equals the exponential of the sum over all onset functions of the logarithm of the onset value read at (pre-pad + sample + traveltime of that node and phase), onset values being clipped below at 0.01 and negative traveltimes being treated as zero, divided by the number of available onsets. The output covers exactly the input length minus pre- and post-pad, the inputs are left unchanged, and a lookup table with a different number of traveltime tables than there are onsets is refused.",
  ["inputs"], "all onset values, all traveltimes up to the post-pad, all grid shapes / sample counts / pads / thread counts within the bounds",
  "The test suite only migrates by running the bundled examples (not part of the stable set); no test compares the kernel with the definition.",
  ["quakemigrate/core/src/migratelib.c", "quakemigrate/core/lib.py"],
  [("stacking kernel", "quakemigrate/core/src/migratelib.c:migrate"), ("ctypes wrapper", "quakemigrate/core/lib.py:migrate")])

p("C02", "Maximum search returns the peak, its first node and the normalised peak",
  "For every time sample of a 4-D coalescence map, the reported maximum coalescence is the largest value over all nodes, the reported node index is the lowest flat (C-order) index that attains it, and the reported normalised maximum is that maximum multiplied by the number of nodes and divided by the sum over all nodes. The map itself is not modified.",
  ["inputs"], "all map values, all node counts, sample counts and thread counts within the bounds",
  "No stable test calls the maximum search; ties, the first/last node and thread partitioning need specific inputs.",
  ["quakemigrate/core/src/migratelib.c", "quakemigrate/core/lib.py"],
  [("maximum search kernel", "quakemigrate/core/src/migratelib.c:find_max_coa"), ("ctypes wrapper", "quakemigrate/core/lib.py:find_max_coa")])

p("C03", "Native kernels stay inside their buffers",
  "For every call the Python layer can make with valid inputs (traveltimes no longer than the post-pad, STA shorter than LTA, data of any length), the native kernels read and write only inside the arrays they are given, never read uninitialised memory and never overflow a signed integer in an index computation.",
  ["inputs"], "all array sizes, window lengths, pads, traveltime values and thread counts within the bounds",
  "An out-of-bounds access of a few bytes does not fail a test; the native code is only run on one example data set.",
  ["quakemigrate/core/src/migratelib.c", "quakemigrate/core/src/onsetlib.c", "quakemigrate/core/lib.py"],
  [("index arithmetic", "quakemigrate/core/src/migratelib.c:migrate, find_max_coa"), ("sliding windows", "quakemigrate/core/src/onsetlib.c")])

p("C04", "Scan results do not depend on the number of threads",
  "Within one parallel region of the native kernels no memory element is written by one thread and read or written by another, and the migrated map, maximum, node index and normalised maximum are the same for every number of threads.",
  ["schedules", "inputs"], "all thread interleavings (via pairwise access conflicts) for all thread counts, map sizes and values within the bounds",
  "A data race shows only under particular interleavings and data sizes; the tests use one thread count.",
  ["quakemigrate/core/src/migratelib.c"],
  [("OpenMP loops", "quakemigrate/core/src/migratelib.c:migrate, find_max_coa")])

p("C05", "STA/LTA onset is the ratio of the two mean windows",
  "At every sample where both windows fit, the classic (overlapping) onset is the mean of the last STA-length samples divided by the mean of the last LTA-length samples, and the centred onset is the mean of the STA-length samples following the sample divided by the mean of the LTA-length samples ending at it; everywhere else, and wherever the long window has no energy, the onset is the neutral value 1. The native and Python backends both satisfy this for every signal, the output has the length of the input, and the recursive transform follows its recurrence.",
  ["inputs"], "all signal values (non-negative characteristic functions), all window lengths and signal lengths within the bounds",
  "The onset test compares one recorded signal with a stored result; window edges and degenerate lengths are not sampled.",
  ["quakemigrate/core/src/onsetlib.c", "quakemigrate/core/lib.py", "quakemigrate/signal/onsets/stalta.py"],
  [("sliding sums", "quakemigrate/core/src/onsetlib.c"), ("wrappers", "quakemigrate/core/lib.py"), ("Python backend", "quakemigrate/signal/onsets/stalta.py:sta_lta_centred, sta_lta_onset")])

p("C06", "Onsets line up with their lookup tables",
  "The rows of the onset array handed to migration appear in the same order as the traveltime tables served for the same availability, one per available station-phase pair of the stations and phases asked for, every onset function has exactly the scan-window length plus both pads, and a phase that is unavailable (none of its components usable, or, if all channels are demanded, any of them missing or unusable) contributes neither a row nor a table. An onset combined from several usable components is the root mean square of their STA/LTA functions (classic or centred; windows of the configured length to the nearest sample, plus one) of the filtered and transformed data, clipped from below at the configured minimum; unusable are flat channels, wrong sampling rates and, where not allowed by the options, gaps and partial coverage. The onset data carry the span of the data and the phases asked for.",
  ["inputs", "configurations"], "all availability patterns of the stations / phases within the bounds, all onset values",
  "The stable tests use one station set with everything available.",
  ["quakemigrate/signal/onsets/stalta.py", "quakemigrate/lut/lut.py", "quakemigrate/signal/onsets/base.py"],
  [("onset assembly", "quakemigrate/signal/onsets/stalta.py:STALTAOnset.calculate_onsets, _onset"), ("traveltime selection", "quakemigrate/lut/lut.py:LUT.serve_traveltimes")])

p("C07", "Detect covers the requested period exactly once",
  "A continuous scan evaluates consecutive windows of one timestep each that start at the requested start time and follow each other without gap or overlap, one sample apart, and there are as few of them as reach the requested end (an end exactly at midnight is exclusive); timestep and pads being whole samples, each window's data request is extended by the onset pads on both sides and its output is stamped with the un-padded window start. A window whose data are missing is written as zeros for exactly the same samples and recorded as unavailable.",
  ["inputs", "fault_sequences"], "all start/end times and timesteps within the bounds, every subset of windows failing with an archive error",
  "No stable test runs detect; failures of individual windows are never injected.",
  ["quakemigrate/signal/scan.py", "quakemigrate/io/scanmseed.py"],
  [("window tiling", "quakemigrate/signal/scan.py:QuakeScan.detect, _continuous_compute"), ("zero filling", "quakemigrate/io/scanmseed.py:ScanmSEED.empty")])

p("C08", "Scan output times match the data that produced them",
  "The coalescence stamped with a given time is computed from the onset samples recorded at that time plus the traveltime, both in the continuous scan and when locating an event, where the time axis has exactly one entry per coalescence sample, starts two marginal windows before the trigger time and ends two marginal windows after it (marginal window and pads being whole samples).",
  ["inputs"], "all trigger times, marginal windows and sampling rates on the sample grid within the bounds",
  "Time alignment off by one sample is invisible in the stored example outputs, which are not part of the stable tests.",
  ["quakemigrate/signal/scan.py", "quakemigrate/io/event.py", "quakemigrate/signal/onsets/base.py"],
  [("compute step", "quakemigrate/signal/scan.py:QuakeScan._compute"), ("event time axis", "quakemigrate/io/event.py:Event.mw_times"), ("pads", "quakemigrate/signal/onsets/base.py:Onset.pad")])

p("C09", "Scan results survive the integer encoding on disk",
  "Every coalescence value up to 21474 and every coordinate written to the continuous scan files reads back within half a quantisation step (1e-5 for coalescence, 1e-6 for X and Y, one millimetre for Z), larger coalescence is clipped to 21474 instead of overflowing, and the five channels keep their identity for both km and m grids.",
  ["inputs"], "all coalescence values, all coordinates in the valid range, both unit systems",
  "Tests never round-trip scan files with values near the clipping limit or negative coordinates.",
  ["quakemigrate/io/scanmseed.py"],
  [("encoding", "quakemigrate/io/scanmseed.py:ScanmSEED.append, _data2int"), ("decoding", "quakemigrate/io/scanmseed.py:read_scanmseed")])

p("C10", "Every scanned sample is written to exactly one day file",
  "After any sequence of timestep results followed by the final flush, each sample appended exists in exactly the file of its own UTC day, with its own value, and no file contains a sample of another day, whether or not the timestep (shorter than a day) divides the day, the scan starts mid-day, or files are rewritten after every timestep. A day is on disk as soon as a sample of the next day has been appended and, when writing continuously, everything appended so far is on disk after every timestep, should the scan stop there.",
  ["histories", "configurations", "crash_points"], "all sequences of appends within the bounds, a stop after any of them, any start offset from midnight, both continuous-write settings",
  "No test appends more than one day's data or timesteps that straddle midnight.",
  ["quakemigrate/io/scanmseed.py"],
  [("day split", "quakemigrate/io/scanmseed.py:ScanmSEED.append, write")])

p("C11", "Reading the continuous scan returns every sample of the padded period",
  "Reading a stored scan between two times returns exactly the stored samples from (start - pad) to (end + pad), to the nearest sample, each on its own timestamp with its own coalescence, normalised coalescence and coordinates, for any position of the period relative to midnight. Samples that were not stored, between stored ones on the same sample grid, read as zeros.",
  ["inputs"], "all start/end/pad combinations relative to the stored days within the bounds",
  "The stable tests do not read scan files.",
  ["quakemigrate/io/scanmseed.py"],
  [("reader", "quakemigrate/io/scanmseed.py:read_scanmseed")])

p("C12", "Trigger threshold has one value per sample and follows its definition",
  "The threshold trace has the same length as the coalescence trace; with the static method every value is the configured level, with the MAD method it is median + multiplier x MAD and with the median-ratio method multiplier x median of the window each sample falls in, windows being consecutive, of the configured length (a whole number of samples, whether or not the product of seconds and sampling rate is exact in floating point) and counted from the first sample. With smoothing, threshold and candidates are made from the smoothed traces: the coalescence and the normalised coalescence, each convolved with a Gaussian of the configured width in seconds, cut off at the configured number of widths; without it from the traces as read.",
  ["inputs", "configurations"], "all coalescence values, all window lengths / trace lengths within the bounds, all methods",
  "The threshold test checks one synthetic trace per method with windows that divide it.",
  ["quakemigrate/signal/trigger.py", "quakemigrate/util.py"],
  [("threshold", "quakemigrate/signal/trigger.py:Trigger._get_threshold, chunks2trace"), ("MAD", "quakemigrate/util.py:calculate_mad")])

p("C13", "Each exceedance of the threshold gives one candidate at its peak",
  "Each maximal run of consecutive samples at or above the threshold yields exactly one candidate, placed at the (first) sample of the run with the largest coalescence and carrying that sample's values. Its time window starts one minimum event interval before the peak when the run starts less than one marginal window before the peak, and otherwise (minimum event interval - marginal window) before the start of the run; and symmetrically at the end.",
  ["inputs"], "all coalescence traces within the bounds, both trigger channels, all window settings with interval >= 2 x marginal window",
  "No stable test runs the candidate search on more than one trace.",
  ["quakemigrate/signal/trigger.py"],
  [("candidates", "quakemigrate/signal/trigger.py:Trigger._identify_candidates")])

p("C14", "Triggered events are separated by at least the minimum event interval",
  "Consecutive candidates whose windows interact (that is, unless the first window ends before the second peak minus one marginal window and the second window starts after the first peak plus one marginal window) are merged into one event that keeps the time and location of the candidate with the (first) largest value of the triggered channel and the union of the time windows; no two remaining events are closer than the minimum event interval, no candidate is lost, and every event gets a 17-digit identifier made of its own time.",
  ["inputs"], "all candidate times, windows and strengths within the bounds",
  "Merging chains of three or more candidates, ties, and sub-second times are not sampled.",
  ["quakemigrate/signal/trigger.py"],
  [("merging", "quakemigrate/signal/trigger.py:Trigger._refine_candidates")])

p("C15", "Each triggered event is reported once, in its own day and region",
  "Over a multi-day trigger run every instant of the requested period (start before end; an end exactly at midnight is exclusive) belongs to exactly one daily batch, an event is kept by a batch exactly when its time lies in that batch and its location lies inside the closed region box, and events in the padding are dropped. If a summary is asked for, each batch has one, which shows the events that were kept and those that were discarded.",
  ["inputs", "configurations"], "all periods and sample offsets within the bounds, all event times and locations, with and without region",
  "Batch boundaries at midnight need data that straddle two days.",
  ["quakemigrate/signal/trigger.py"],
  [("day batches", "quakemigrate/signal/trigger.py:Trigger.trigger, _trigger_batch"), ("filter", "quakemigrate/signal/trigger.py:Trigger._filter_events")])

p("C16", "Triggered events round-trip through their files",
  "Every event written by trigger is read back by locate with the same identifier, time, location and strength, exactly once, for any period that contains its time, whichever day file it was written to and however often events were written before; writing events never changes which columns later files have.",
  ["inputs", "histories"], "all sets of events within the bounds, all read periods, repeated writes with and without time windows",
  "No stable test reads trigger files back; repeated writes in one process are not tested.",
  ["quakemigrate/io/triggered_events.py"],
  [("writer/reader", "quakemigrate/io/triggered_events.py:write_triggered_events, read_triggered_events")])

p("C17", "Origin time is the coalescence peak inside the marginal window",
  "The origin time of a located event is the time of the largest coalescence in the scan window, the event is kept exactly when the trigger time is less than one marginal window away from it, and (window edges falling on samples) after trimming the time series and the 4-D map contain the same samples: all those within one marginal window of the origin time.",
  ["inputs"], "all coalescence series, all trigger times and marginal windows within the bounds",
  "No stable test exercises the trimming; a lost sample does not change the stored example locations visibly.",
  ["quakemigrate/io/event.py"],
  [("event state", "quakemigrate/io/event.py:Event.add_compute_output, in_marginal_window, trim2window")])

p("C18", "Locations come from the marginalised coalescence peak and stay in the grid",
  "The marginalised map is the sum of the 4-D map over time divided by its maximum; the spline location is the position of the largest value of the function interpolated through the nodes within two nodes of the peak (sampled at tenths of a node), so never more than two nodes from the peak nor outside the grid, and the peak node itself where the edge of the grid cuts that window to unequal lengths; the covariance location and uncertainties are the weighted mean and weighted standard deviations, in grid units, of the nodes above 0.9 of the peak (its overall uncertainty their geometric mean); each is stored under its own name in input coordinates. The hypocentre of an event is the spline location and its uncertainty that of the Gaussian one, unless another is asked for by name.",
  ["inputs"], "all map values on the small grids within the bounds",
  "Location arithmetic is only exercised on one event, compared at low precision, outside the stable tests.",
  ["quakemigrate/signal/scan.py"],
  [("marginalisation", "quakemigrate/signal/scan.py:QuakeScan._calculate_location"), ("spline", "quakemigrate/signal/scan.py:QuakeScan._splineloc"), ("covariance", "quakemigrate/signal/scan.py:QuakeScan._covfit3d"), ("mask", "quakemigrate/signal/scan.py:QuakeScan._mask3d")])

p("C19", "Pick windows never overlap and stay inside the onset",
  "For each station the phase pick windows are centred on the modelled arrivals with half-width traveltime fraction plus marginal window, are clipped at the sample half-way between consecutive arrivals (rounded down) so that they never overlap, and are clipped to the recorded onset; the modelled arrivals themselves being inside the onset and P before S.",
  ["inputs"], "all origin times, traveltimes, fractions, marginal windows and onset lengths within the bounds",
  "Overlap and clipping need particular S-P times and late arrivals.",
  ["quakemigrate/signal/pickers/gaussian.py"],
  [("windows", "quakemigrate/signal/pickers/gaussian.py:GaussianPicker._determine_window, _distinguish_windows")])

p("C20", "A pick is made only on a real peak, inside its window",
  "The pick threshold is the configured percentile, or median plus multiplier x MAD, of the onset samples outside all pick windows that exceed 1; a pick is attempted only if the run of samples above the threshold that contains the window maximum has at least two samples; then a Gaussian a exp(-(t-b)^2 / 2c^2) is fitted to that run and one sample either side, with pick time b, error |c| and height a, and it is accepted only when its time falls inside the window, and otherwise every pick field is -1.",
  ["inputs"], "all onset values and windows within the bounds, any result of the curve fit",
  "Failure branches of the picker need particular onset shapes.",
  ["quakemigrate/signal/pickers/gaussian.py", "quakemigrate/util.py"],
  [("threshold", "quakemigrate/signal/pickers/gaussian.py:GaussianPicker._find_pick_threshold"), ("peak", "quakemigrate/signal/pickers/gaussian.py:GaussianPicker._find_peak"), ("fit", "quakemigrate/signal/pickers/gaussian.py:GaussianPicker._fit_gaussian")])

p("C21", "Only complete, healthy channels are used",
  "A channel is available exactly when it is not flat, has no overlaps, has no gaps unless these are allowed, has the required sampling rate when asked, and covers the full requested time span (start and end exactly, when asked); the overall answer is yes exactly when all expected channels are available, or any channel when not all are required.",
  ["inputs", "configurations"], "all sets of up to the bounded number of trace segments with arbitrary starts and lengths, all option combinations",
  "Each option combination with gaps/overlaps/short traces would need its own recording.",
  ["quakemigrate/io/data.py"],
  [("availability", "quakemigrate/io/data.py:WaveformData.check_availability")])

p("C22", "Archive reads return exactly the requested data",
  "A data request searches the files of every day it touches including its pads, for every requested station; the waveforms used for detection are trimmed (to the nearest sample) to the un-padded period while the raw copy keeps the pads and the original samples and timestamps, channels split over day files are joined, stations that were read along with those requested (all stations read) are excluded from the detection waveforms, unreadable files are skipped, empty channels are dropped, the data carry the period, pads, stations and resampling settings of the request and the archive, and it is reported as an empty archive when no file matches and as a data gap when the files hold no data for the period.",
  ["inputs", "configurations"], "all request times and pads within the bounds relative to midnight, all archive contents within the bounds",
  "The tests read one small archive with one period.",
  ["quakemigrate/io/data.py", "quakemigrate/util.py"],
  [("reader", "quakemigrate/io/data.py:Archive.read_waveform_data, _load_from_path")])

p("C23", "Resampling keeps time and is exact at the original samples",
  "Data are decimated (after a zero-phase low-pass filter at the new Nyquist frequency, keeping the first sample and every n-th one after it) only when the native rate is an integer multiple of the target; otherwise, when asked to, they are up-sampled by linear interpolation that passes through every original sample, padded by less than one native sample with the end values to reach the period, an up-sampling factor that cannot give the target rate being refused; anything else is left at its own rate. All are trimmed to the period; shifting a trace on to the sample grid moves its start by at most half a sample and, when not interpolating, leaves the samples unchanged.",
  ["inputs"], "all sample values, factors, rates and start offsets within the bounds",
  "The resampling tests use fixed recordings and factors.",
  ["quakemigrate/util.py"],
  [("resample", "quakemigrate/util.py:resample, decimate, upsample"), ("grid shift", "quakemigrate/util.py:shift_to_sample")])

p("C24", "Grid indices, projected coordinates and geographic coordinates are consistent",
  "Converting a node index to a position (in the grid projection or geographic) and back returns the index, a position off the nodes gives the nearest node, and indices may be given singly, as a list, or flat in the C order used by the scan. The grid starts at the lower-left corner and has, on each axis, the fewest nodes of the declared spacing that reach the upper-right corner; the corner nodes, coordinate arrays and extents (of nodes or of cells, half a spacing wider) describe the same nodes. A table prints the latitude, longitude and depth of its lower-left and upper-right corner nodes, and its largest extent takes in its cells and its stations with a twentieth more on each side.",
  ["inputs", "configurations"], "all node counts, spacings and corners within the bounds, the projection treated as an arbitrary invertible map",
  "Tests use one grid.",
  ["quakemigrate/lut/lut.py"],
  [("grid", "quakemigrate/lut/lut.py:Grid3D")])

p("C25", "Decimating a lookup table keeps traveltimes on their nodes",
  "A decimated lookup table stores at every remaining node exactly the traveltime the original table has at the same position in space, for every station and phase; its spacing is multiplied by the factors, it keeps as many nodes as fit, lies inside the original and is centred in it to within one node; stations and phases are kept, and the original is unchanged unless decimated in place.",
  ["inputs", "configurations"], "all traveltimes, node counts and decimation factors within the bounds",
  "The examples decimate with one factor that happens to need no centring offset.",
  ["quakemigrate/lut/lut.py"],
  [("decimation", "quakemigrate/lut/lut.py:LUT.decimate")])

p("C26", "Served traveltimes are the table values in samples, in availability order",
  "The traveltimes served for migration are, for each available station-phase in the order of the availability (without availability: all stations for each phase in turn), the table values multiplied by the sampling rate and rounded to the nearest sample; the traveltime to one, several or all stations at an arbitrary position is interpolated linearly between the nodes of the station's own table and exact at nodes, and the maximum traveltime is the largest over all tables. Tables in the old format (TIME_P) serve the same.",
  ["inputs", "configurations"], "all traveltimes, availability patterns and sampling rates within the bounds",
  "One lookup table and availability is tested.",
  ["quakemigrate/lut/lut.py"],
  [("serving", "quakemigrate/lut/lut.py:LUT.serve_traveltimes, traveltime_to, max_traveltime")])

p("C27", "Traveltime tables come from the geometry and velocity model given",
  "A homogeneous table holds distance over velocity at every node for every station and phase; a table computed with NonLinLoc asks it for the station's position, the layers (constant or gradient) and a 2-D grid, all in kilometres, covering every node, and holds the bilinear interpolation of the 2-D table at each node's distance and depth, wherever the grid starts. Fast-marching tables use the velocity interpolated linearly between the given depths (constant outside) and the node nearest to the station as source, and refuse stations outside the grid. Tables read from NonLinLoc keep their values, node count, origin, spacing and projection (the transformation and ellipsoid of the header, as NonLinLoc defines them; other transformations are refused).",
  ["inputs", "configurations"], "all station positions, velocities, layer depths and grids within the bounds",
  "Tests build one homogeneous and one 1-D table and compare stored numbers.",
  ["quakemigrate/lut/create_lut.py"],
  [("builders", "quakemigrate/lut/create_lut.py:_compute_homogeneous, _bilinear_interpolate, _vmodel_string")])

p("C28", "Amplitudes are the largest peak-to-trough of windows about the arrivals",
  "For every component whose trace covers the whole span read for amplitudes (which keeps every window about a modelled arrival clear of the taper) and has an instrument response, the P and S windows reach the marginal window plus fraction times modelled traveltime either side of the picked arrival (the modelled one if the phase was not picked, both modelled if either has no onset), both ends later by the signal window; the P window stops at the start of the S window, and the two meet half-way where they overlap; nothing is measured when P is not before S. The amplitude in a window is half the largest difference between an adjacent peak and trough (as prominent as configured) of the linearly detrended displacement, in millimetres and divided by the gain of the configured filter at its frequency, at its mid time; noise is the RMS, STD or envelope average of the detrended noise window that ends at the P window; the result has one row per station and component in order with epicentral and vertical distances in km and no values where nothing was measured, and the raw waveforms are unaltered.",
  ["inputs"], "all pick and arrival times, windows and fractions; all sample values within the bounds",
  "Window interaction needs particular S-P times and the failure branches particular waveforms.",
  ["quakemigrate/signal/local_mag/amplitude.py"],
  [("windows", "quakemigrate/signal/local_mag/amplitude.py:Amplitude._get_amplitude_windows, _get_picks"), ("peak-to-trough", "quakemigrate/signal/local_mag/amplitude.py:Amplitude._peak_to_trough_amplitude"), ("noise", "quakemigrate/signal/local_mag/amplitude.py:Amplitude._measure_noise_amp"), ("pads", "quakemigrate/signal/local_mag/amplitude.py:Amplitude.pad")])

p("C29", "Station magnitudes follow the local-magnitude formula",
  "Each observation's magnitude is log10 of its amplitude times the multiplier plus the attenuation (published curve or user's function) at its epicentral or hypocentral distance plus its trace's correction, and its error is the difference between the magnitudes of amplitude plus and minus noise, the noise corrected for the filter's gain; observations below that noise or with zero amplitude or distance have no magnitude; the result is the amplitude table with the columns ML and ML_Err added, and the table passed in is not altered.",
  ["inputs", "configurations"], "all amplitudes, noise levels, distances, corrections and built-in attenuation curves within the bounds",
  "No stable test computes magnitudes.",
  ["quakemigrate/signal/local_mag/magnitude.py"],
  [("per-trace magnitude", "quakemigrate/signal/local_mag/magnitude.py:Magnitude.calculate_magnitudes, _calc_mags, _logA0")])

p("C30", "Network magnitude uses exactly the observations that pass every filter",
  "The event magnitude is the mean (or mean weighted by inverse squared error) of the magnitudes of exactly those observations with signal, noise and magnitude that pass all configured noise, trace, station, distance and pick filters, its error is their (weighted) standard deviation or the single observation's own error, and it is missing when nothing passes; r-squared measures the fit over those observations or, on request, over those passing trace, station and distance filters whose amplitude passes the noise filter or is predicted at five times the noise or more; the noise is corrected for the filter's gain once; the event carries these values and the .amps file has every observation with its values to the precision of the file.",
  ["inputs", "configurations"], "all observation values and filter settings within the bounds",
  "Filter combinations are not tested.",
  ["quakemigrate/signal/local_mag/magnitude.py"],
  [("filters", "quakemigrate/signal/local_mag/magnitude.py:Magnitude._filter_mags"), ("mean", "quakemigrate/signal/local_mag/magnitude.py:Magnitude.mean_magnitude"), ("r-squared", "quakemigrate/signal/local_mag/magnitude.py:Magnitude._mag_r_squared")])

p("C31", "Event files and catalogue exports carry the located times and positions",
  "An event written by locate (.event, .picks and .amps files) and read back as an ObsPy catalogue keeps its origin time (to the microsecond), the spline (preferred) and Gaussian longitudes and latitudes (to 6 decimals or better), the depths and depth errors and covariance lengths in metres (from km or m grids, to a metre and to two decimals more than the node spacing), longitude and latitude errors in degrees, coalescence values (4 significant digits), one modelled pick per row and one automatic pick per picked row with its time, error and signal-to-noise ratio (3 digits), each measured amplitude and its noise in metres (5 digits) with its time and period, and the station and network magnitudes that exist (3 digits; none, and no error, when the magnitude is NaN). A NonLinLoc phase file has one line per pick of the kind asked for, whose date, hour-minute and seconds add up to its time to 0.1 ms; Snuffler markers hold the origin and pick times to the microsecond, leading zeros included; station names are kept as written (\"007\", \"NA\"); Snuffler station files give each station its own network code and coordinates; MFAST SAC files hold each station's own waveforms with the origin, P and S times from the start of the trace, depth and distance in kilometres and station elevation in metres.",
  ["inputs"], "all event and pick times, positions, uncertainties, amplitudes and both unit systems within the bounds",
  "No stable test exports an event, and errors of padding, rounding and units depend on the values.",
  ["quakemigrate/io/event.py", "quakemigrate/io/amplitudes.py", "quakemigrate/signal/pickers/base.py", "quakemigrate/export/to_snuffler.py", "quakemigrate/export/to_nlloc.py", "quakemigrate/export/to_mfast.py", "quakemigrate/export/to_obspy.py"],
  [("event file", "quakemigrate/io/event.py:Event.write"), ("catalogue", "quakemigrate/export/to_obspy.py"), ("writers", "quakemigrate/export")])

p("C32", "Times convert to the nearest sample and trimmed spans are whole samples",
  "Converting a time to a number of samples gives the nearest integer for every time and (integer) sampling rate, and the data span cut for an onset after removing the taper is a whole number of samples and never shorter than requested, whatever the sampling rate.",
  ["inputs"], "all times and sampling rates within the bounds, with binary floating-point rounding modelled",
  "Floating-point truncation shows only for particular durations.",
  ["quakemigrate/util.py", "quakemigrate/signal/onsets/stalta.py"],
  [("conversion", "quakemigrate/util.py:time2sample, trim2sample")])

p("C33", "Station availability written by detect is what was used, one row per window",
  "The availability files contain exactly one row per scanned window in the file of the window's day, with the 0/1 value actually used for each station and phase, and reading a period returns the rows of every day file of the period in order; files of earlier versions (one column per station) stand for every phase of that station.",
  ["inputs", "histories"], "all availability values and window times within the bounds, relative to midnight",
  "No stable test writes more than one day.",
  ["quakemigrate/io/availability.py"],
  [("writer/reader", "quakemigrate/io/availability.py:write_availability, read_availability")])

p("C34", "Cut waveforms contain the requested span of the original data",
  "Event waveform files hold, for every channel with data, exactly the raw samples between origin time minus pre-cut and origin time plus post-cut, to the nearest sample (all read data when no cut is given), in one file per event of the format asked for (one per trace for SAC); real and simulated waveforms are made from the same samples of every channel, in the units asked for, whether or not magnitudes were calculated before, and traces without response or without signal (constant) are left out without affecting the others.",
  ["inputs", "configurations"], "all origin times and cut lengths within the bounds, all combinations of output types",
  "No stable test writes cut waveforms with cuts.",
  ["quakemigrate/io/cut_waveforms.py"],
  [("writer", "quakemigrate/io/cut_waveforms.py:write_cut_waveforms, get_waveforms")])

p("C35", "Lookup tables survive saving, reading and combining",
  "Saving a lookup table and reading it back, by any of the supported ways, gives the same grid, projections, units, stations, phases, velocity model, traveltime fraction and traveltimes. Two tables compare equal exactly when their corners, spacing and projections do; adding one table to another on the same grid adds exactly the stations not already present, with their positions, and leaves the tables of the others alone, and adding a table on a different grid adds nothing, and the table added is never changed, even if the sum is decimated in place later. A table saved by an earlier version (maps by TIME_P and TIME_S, cells instead of nodes) serves the same traveltimes on the same grid, and `update_lut` saves it in the present form.",
  ["inputs", "histories"], "all corners, spacings, traveltimes and choices of stations within the bounds",
  "No stable test saves, reads back or combines lookup tables.",
  ["quakemigrate/lut/lut.py", "quakemigrate/io/core.py"],
  [("combining", "quakemigrate/lut/lut.py:LUT.__add__, __eq__"), ("saving and reading", "quakemigrate/lut/lut.py:LUT.save, load, __init__; quakemigrate/io/core.py:read_lut")])

p("C36", "Locate writes exactly the outputs asked for, for each located event",
  "Events are taken in order, each once, with the data of its own window. For each event whose data can be read and used and whose coalescence peak lies within one marginal window of its trigger time, locate writes the event file named by its EventID (with the peak time, and its own magnitude exactly when magnitudes are calculated), picks it on its own marginal window, measures its magnitude, and makes the summary plot, in that order and once each; and, exactly when asked for, the cut waveforms (raw, real, Wood-Anderson; in the format and units asked; that event's data between its origin time minus the pre-cut and plus the post-cut) and the marginalised coalescence map (the sum over its marginal window, divided by its maximum); the full 4-D coalescence map of the window scanned is written exactly when asked for, also when the peak lies outside. An event with missing data, gaps, no usable station or a peak outside the window writes nothing else, and neither stops nor changes the events that follow; the data read reach far enough for amplitudes and cuts; and the same object can be run again.",
  ["inputs", "configurations", "fault_sequences"], "all combinations of two events' faults and peak positions and of the output options within the bounds",
  "The tests locate one event with one set of options; faults of one event reach others only in sequences.",
  ["quakemigrate/signal/scan.py", "quakemigrate/io/event.py", "quakemigrate/io/cut_waveforms.py", "quakemigrate/io/scanmseed.py"],
  [("loop over events", "quakemigrate/signal/scan.py:QuakeScan._locate_events, locate"), ("event", "quakemigrate/io/event.py:Event"), ("maps", "quakemigrate/io/event.py:Event.write; quakemigrate/signal/scan.py:_calculate_location"), ("cuts", "quakemigrate/io/cut_waveforms.py:write_cut_waveforms")])

p("C37", "Padding keeps tapered data out of the onset values that are used",
  "The data requested before and after each window of detect (of any timestep) and of locate (four marginal windows) are whole samples long, and long enough that the 5 % taper at each end of the data read never reaches, through any STA or LTA window (classic or centred, of any phase), an onset value inside the scanned window or up to the largest traveltime after it. Only the first and last 5 % of the data are tapered. For picking, the onset values whose windows do touch tapered data are set to one (no signal), and every onset value that was scanned is kept.",
  ["inputs", "configurations"], "all window lengths, traveltimes, timesteps and marginal windows within the bounds",
  "Contamination by the taper appears only for particular combinations of window length, timestep and largest traveltime.",
  ["quakemigrate/signal/onsets/stalta.py", "quakemigrate/signal/scan.py", "quakemigrate/util.py"],
  [("pads", "quakemigrate/signal/onsets/base.py:Onset.pad; quakemigrate/signal/onsets/stalta.py:STALTAOnset.pre_pad, post_pad; quakemigrate/signal/scan.py:_continuous_compute, _locate_events"), ("onset trimming", "quakemigrate/signal/onsets/stalta.py:STALTAOnset._trim_taper_pad"), ("taper", "quakemigrate/signal/onsets/stalta.py:pre_process")])

p("C38", "Instrument corrections remove the instrument's own response",
  "The real waveform of a trace is its linearly detrended data with one instrument response removed: that of the trace's own id at its start time, with the inventory's poles, zeros (in rad/s or Hz), normalisation and sensitivity, from the input units of the instrument (displacement, velocity or acceleration) to the velocity or displacement asked for (by default velocity, for Wood-Anderson displacement), or the full response when asked for, always with the water level and pre-filter given to the archive (60 dB and none by default). The Wood-Anderson waveform is the real waveform with the standard Wood-Anderson response simulated once; each is kept with the event's data; the trace given is left alone, and repeating a correction gives the same. A trace whose response is missing, unusable or cannot be removed raises a ResponseNotFoundError or ResponseRemovalError naming it, leaves nothing, and other traces are corrected all the same; without an inventory corrections are refused; the Wood-Anderson responses have the published poles, sensitivity 2080 and one zero more for the same input and output.",
  ["inputs", "configurations", "fault_sequences"], "all normalisations, sensitivities, water levels, pre-filters, epochs and faults within the bounds",
  "No stable test removes a response; units, epochs and faulty inventories are never sampled.",
  ["quakemigrate/io/data.py", "quakemigrate/util.py"],
  [("real", "quakemigrate/io/data.py:WaveformData.get_real_waveform"), ("Wood-Anderson", "quakemigrate/io/data.py:WaveformData.get_wa_waveform; quakemigrate/util.py:wa_response"), ("parameters", "quakemigrate/io/data.py:Archive.__init__, read_waveform_data")])

p("C39", "The Gaussian location is the centre of a Gaussian fitted to the smoothed map",
  "The marginalised map, normalised, is smoothed twice (forwards and backwards) with a Gaussian of 0.8 nodes; minus the logarithm of the smoothed map less its mean, at the nodes within three nodes of its peak where that is above zero, is fitted by a quadratic in least squares, whose centre, in input coordinates, is the Gaussian location: for a map that is a Gaussian there, that is the centre of the Gaussian, wherever it is between the nodes. Its uncertainties are positive, in the grid's units (node spacing included), and in proportion to its widths: along each axis for a Gaussian along the axes, along its principal axes (in some order) otherwise.",
  ["inputs"], "all centres of the Gaussian around the peak node and all grid corners, for the listed widths, orientations and grids",
  "Only one location is ever compared, at low precision, outside the stable tests.",
  ["quakemigrate/signal/scan.py", "quakemigrate/util.py"],
  [("smoothing", "quakemigrate/signal/scan.py:QuakeScan._gaufilt3d; quakemigrate/util.py:gaussian_3d"), ("fit", "quakemigrate/signal/scan.py:QuakeScan._gaufit3d, _calculate_location")])

p("C40", "Station files, velocity models and responses are read as they are written",
  "A station file's stations are read in file order, with any column order, delimiter and further columns: names are text exactly as written (also \"007\", \"1e5\", \"NA\"), elevations (positive up) become depths by one change of sign, everything else is unchanged; a file without any one of Latitude, Longitude, Elevation and Name is refused (StationFileHeaderException). `stations` does what `read_stations` does. A velocity model is read as written and refused without a Depth column (InvalidVelocityModelHeader); a response file is read as ObsPy reads it; one it cannot read raises a TypeError, SAC pole-zero files are refused (NotImplementedError). Every dot in the name and subname of a run becomes an underscore; the run's files are kept under path/name, its log under the stage and subname, and its full name is name_subname (or name).",
  ["inputs", "configurations"], "all coordinates and elevations, the listed names, column orders, missing columns and run names",
  "Tests read one well-formed station file with simple names.",
  ["quakemigrate/io/core.py"],
  [("stations", "quakemigrate/io/core.py:read_stations, stations"), ("velocity model", "quakemigrate/io/core.py:read_vmodel"), ("responses", "quakemigrate/io/core.py:read_response_inv"), ("runs", "quakemigrate/io/core.py:Run")])

p("C41", "Settings that cannot work are refused, and deprecated names still work",
  "Refused, with nothing done, are exactly: a minimum event interval (also as minimum_repeat, at construction or later) below two marginal windows (ValueError); periods that end before they start, for detect, trigger and locate (TimeSpanException); locate without arguments or with one end of a period (RuntimeError); unknown trigger threshold methods, pick threshold methods and noise measures; pick_threshold; parts of the wrong kind (onset, picker, mags); an onset without a sampling rate or with min_onset_value below 0.01 (ValueError); an onset filter whose highcut reaches half the sampling rate (NyquistException); amplitude filters without their frequencies, two filters at once, and response settings given to the amplitudes (AttributeError); magnitudes without A0 (TypeError); spacings and node counts that are not positive; traveltime methods that are unknown or lack their velocities; phases that the lookup table does not have (LUTPhasesException); unknown archive structures, and reading an archive without one. An amplitude bandpass that reaches half the sampling rate becomes a high-pass at its lower frequency. Deprecated names (minimum_repeat, the dynamic threshold, time_step, n_cores, onset_centred, p_/s_bp_filter, p_/s_onset_win, cell_count, cell_size, the Centred and Classic onset classes) do what their replacements do; sampling_rate given to a scan is ignored, which uses the onset's.",
  ["inputs", "configurations"], "all numbers in the stated ranges, every combination of the settings named",
  "The stable tests construct each object once with settings that work.",
  ["quakemigrate/signal/trigger.py", "quakemigrate/signal/scan.py", "quakemigrate/signal/onsets/stalta.py", "quakemigrate/signal/onsets/base.py", "quakemigrate/signal/pickers/gaussian.py", "quakemigrate/signal/local_mag/amplitude.py", "quakemigrate/signal/local_mag/magnitude.py", "quakemigrate/lut/lut.py", "quakemigrate/lut/create_lut.py", "quakemigrate/io/data.py"],
  [("trigger", "quakemigrate/signal/trigger.py:Trigger.min_event_interval, minimum_repeat, threshold_method, trigger"), ("scan", "quakemigrate/signal/scan.py:QuakeScan.__init__, detect, locate, _compute"), ("onset", "quakemigrate/signal/onsets/stalta.py:STALTAOnset.__init__, pre_process"), ("picker", "quakemigrate/signal/pickers/gaussian.py:GaussianPicker.__init__"), ("amplitudes", "quakemigrate/signal/local_mag/amplitude.py:Amplitude.__init__, _filter_trace"), ("grid", "quakemigrate/lut/lut.py:Grid3D; quakemigrate/lut/create_lut.py:compute_traveltimes"), ("archive", "quakemigrate/io/data.py:Archive.path_structure, _load_from_path")])

p("C42", "Settings hold the values given, and the documented defaults otherwise",
  "A scan, a trigger, a STA/LTA onset function, a Gaussian picker, an archive (with its response removal parameters), and a local magnitude with its amplitude and magnitude parts hold, for each documented setting, exactly the value given (also zero, False, None or an empty list) and, when it was not given, its documented default, whichever other settings were given. Settings of one object are its own: making further objects with other settings, also through deprecated names, changes neither the objects made before nor the defaults of those made after.",
  ["inputs", "configurations", "histories"], "all numbers in the stated ranges, each setting alone, all but each, all and none given",
  "The stable tests construct a few objects with one set of settings and do not look at the others.",
  ["quakemigrate/signal/scan.py", "quakemigrate/signal/trigger.py", "quakemigrate/signal/onsets/stalta.py", "quakemigrate/signal/pickers/gaussian.py", "quakemigrate/io/data.py", "quakemigrate/signal/local_mag/amplitude.py", "quakemigrate/signal/local_mag/magnitude.py"],
  [("scan", "quakemigrate/signal/scan.py:QuakeScan.__init__"), ("trigger", "quakemigrate/signal/trigger.py:Trigger.__init__"), ("onset", "quakemigrate/signal/onsets/stalta.py:STALTAOnset.__init__"), ("picker", "quakemigrate/signal/pickers/gaussian.py:GaussianPicker.__init__"), ("archive", "quakemigrate/io/data.py:Archive.__init__"), ("local magnitude", "quakemigrate/signal/local_mag/local_mag.py:LocalMag.__init__")])

p("C43", "Summary figures show the values of their run and change none of them",
  "A trigger summary shows coalescence and normalised coalescence against time, the threshold on the trace triggered on, each triggered event's time, marginal window and minimum event interval (and the intervals of events discarded by a region), the triggered and discarded events, the region and the stations in map and sections (coloured by strength), how many events were triggered, and the number of available stations of each recorded window. An event summary shows the slices of the coalescence map through its peak with each value in the cell of its node, the hypocentre, Gaussian uncertainty and stations, each shown station's filtered waveforms and modelled arrivals in its own row, the coalescence and origin time, and the numbers of the location and magnitude in degrees and km; a pick summary shows, for each phase, the onset function, pick threshold, modelled arrival, pick window and, when a pick was made, its time, error and fitted curve; an amplitude figure shows the noise and the signal amplitudes (used and not used) at their distances with their errors, and the amplitudes predicted for the magnitude and its errors. Each figure is written to its own file named after its batch, event or station, and making it leaves the event, lookup table, waveforms, map, onsets and picks as they were.",
  ["inputs", "configurations"], "all values within the stated ranges for the listed layouts of stations, components, phases, regions and units",
  "The stable tests make no figures.",
  ["quakemigrate/plot/trigger.py", "quakemigrate/plot/event.py", "quakemigrate/plot/phase_picks.py", "quakemigrate/plot/amplitudes.py", "quakemigrate/signal/local_mag/magnitude.py", "quakemigrate/lut/lut.py"],
  [("trigger summary", "quakemigrate/plot/trigger.py:trigger_summary"), ("event summary", "quakemigrate/plot/event.py:event_summary"), ("pick summary", "quakemigrate/plot/phase_picks.py:pick_summary"), ("amplitude figure", "quakemigrate/signal/local_mag/magnitude.py:Magnitude.plot_amplitudes"), ("map", "quakemigrate/lut/lut.py:LUT.plot")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
