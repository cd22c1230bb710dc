#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

CPP = "riptide/cpp/"

prop("C01", "The FFA transform is the sum of the rows along every linear drift",
     "Row s of the FFA transform of an m x p array (0 <= s < m) is the sum of all m input rows, row i being rotated left by an integer d_i(s) that goes from 0 for the first row to s for the last one without ever decreasing, and follows the straight line i*s/(m-1) as closely as the recursive halving with nearest-integer rounding allows. "
     "ffa1(data, p) is that transform applied to the first floor(N/p)*p samples; the N % p trailing samples have no effect whatsoever. "
     "Outputs are float32 of shape (m, p), inputs are left untouched, and inputs that cannot be transformed (wrong dimensions, p not a positive int, p > N) raise ValueError.",
     ["inputs"], "All (m, p) shapes incl. m = 1, 2, 3, odd/even/power of two +-1, p = 1 and m >> p; all finite data values; all N, p.",
     "The test suite compares against a handful of small fixed transforms (shapes up to 8 rows or so); the shift table depends on m through a recursion, so every m is a different code path.",
     [CPP+"transforms.hpp", CPP+"kernels.hpp", CPP+"block.hpp", CPP+"python_bindings.cpp", "riptide/libffa.py"],
     [("recursive transform / merge", CPP+"transforms.hpp"), ("fused_rollback_add", CPP+"kernels.hpp"), ("ffa1 / ffa2 wrappers", "riptide/libffa.py")],
     ["riptide.ffa1", "riptide.ffa2"])

prop("C02", "FFA trial frequencies and periods follow f0 - f0^2 s/(m-1)",
     "For N samples, base period p and sampling time dt, ffafreq returns exactly m = floor(N/p) frequencies f_s = (1/p - s/((m-1) p^2)) / dt, i.e. strictly decreasing from 1/(p dt) to (1/p - 1/p^2)/dt, or the single value 1/(p dt) when m = 1. "
     "ffaprd returns their inverses, in the same order as the rows of the transform, and both agree with the trial periods of the periodogram for the same base period. "
     "Invalid N, p or dt raise ValueError.",
     ["inputs"], "All N >= p > 1, all dt > 0, m = 1, 2 and large.",
     "One test checks a few values for one N and p; the agreement with the periodogram's own period formula is never checked.",
     ["riptide/libffa.py", CPP+"periodogram.hpp"],
     [("ffafreq / ffaprd", "riptide/libffa.py"), ("trial period formula", CPP+"periodogram.hpp")],
     ["riptide.ffafreq", "riptide.ffaprd"])

prop("C03", "Real-valued downsampling integrates the input exactly",
     "Downsampling N samples by a real factor f yields floor(N/f) float32 samples, where sample k is the integral of the input, seen as a piecewise constant function, over [k f, (k+1) f): boundary samples contribute the covered fraction and nothing is read beyond the input. "
     "It is hence linear, local, and conserves the sum of the covered data up to float32 rounding. "
     "Factors f <= 1, f > N or NaN raise ValueError, for arrays and for TimeSeries alike.",
     ["inputs"], "All N, all real f in (1, N] incl. integers, divisors of N, values just above 1 and just below or above an integer, f = N.",
     "No test checks the values of a downsampled array; one checks output sizes at a fixed factor.",
     [CPP+"downsample.hpp", CPP+"python_bindings.cpp", "riptide/libffa.py"],
     [("downsample kernel", CPP+"downsample.hpp"), ("factor check", CPP+"downsample.hpp")],
     ["riptide.downsample", "TimeSeries.downsample"])

prop("C04", "Boxcar S/N is the best match of a zero-mean unit-norm boxcar",
     "For every profile and trial width w < number of bins b, the S/N is the maximum over all b circular placements of the correlation of the profile with a boxcar of width w that has zero mean and unit square sum, divided by stdnoise. "
     "It is therefore invariant under rotation of the profile and addition of a constant, and scales with the profile amplitude; an input of shape (..., b) gives a float32 output of shape (..., number of widths) whose entries depend on their own profile and width only. "
     "A width that is not in [1, b-1] or stdnoise <= 0 raises ValueError.",
     ["inputs"], "All profiles (any sign, offset, all-negative), all numbers of bins >= 2, all width lists (unsorted, repeated, up to b-1), any number of leading axes.",
     "Tests use one boxcar-shaped profile on a fixed number of bins, and small width lists.",
     [CPP+"snr.hpp", CPP+"kernels.hpp", CPP+"python_bindings.cpp", "riptide/libffa.py"],
     [("snr1 / snr2", CPP+"snr.hpp"), ("circular_prefix_sum, diff_max", CPP+"kernels.hpp"), ("argument checks", CPP+"snr.hpp")],
     ["riptide.boxcar_snr"])

prop("C05", "The running median is exact at every sample",
     "For every odd width w smaller than the input length, output sample i of running_median is exactly the median of the w samples centred on i, the input being extended at both ends with its first and last value. "
     "Any memory layout of the input gives the same result, the input is not modified, and an even width or a width not smaller than the length raises ValueError.",
     ["inputs"], "All finite float32 data incl. ties, sorted, reversed and alternating data, all odd widths from 1 to N-1, strided and reversed views.",
     "Tests compare with a reference on a few random arrays and two or three widths; selection bugs need particular orderings and ties.",
     [CPP+"running_median.hpp", CPP+"python_bindings.cpp", "riptide/running_medians.py"],
     [("RunningMedian ring buffer and quickselect", CPP+"running_median.hpp"), ("contiguity handling", "riptide/running_medians.py")],
     ["riptide.running_median"])

prop("C06", "De-reddening subtracts the scrunched, interpolated running median",
     "fast_running_median(x, w, minpts) is the exact running median when w is less than two times minpts; otherwise it is the running median over minpts points of the data averaged in consecutive blocks of floor(w/minpts) samples, linearly interpolated from the block centres back to every sample and held constant beyond the first and last centre. "
     "TimeSeries.deredden(width, minpts) subtracts exactly that, with w = width/tsamp rounded to the nearest integer, in place or not: it is unaffected by a constant offset and turns a constant into zero. "
     "An even minpts, an even width that is less than two times minpts, and windows that do not fit in the data are refused with an exception.",
     ["inputs", "configurations"], "All data lengths, widths, minpts; block factors that do not divide the length; in-place and out-of-place.",
     "Tests only cover the un-scrunched case and the exception for an even minpts.",
     ["riptide/running_medians.py", "riptide/time_series.py", CPP+"running_median.hpp"],
     [("scrunch + running_median + interp", "riptide/running_medians.py"), ("TimeSeries.deredden", "riptide/time_series.py")],
     ["riptide.fast_running_median", "TimeSeries.deredden"])

prop("C07", "The periodogram covers the whole requested period range without gaps",
     "The trial periods of a periodogram are strictly increasing, start at period_min, stay below period_max, and every trial is folded with a number of bins between bins_min and bins_max. "
     "They are, for each downsampling by period_min/(tsamp*bins_min)*((bins_max+1)/bins_min)^k and each base period of b bins of width tau in turn, exactly the FFA trials tau*b^2/(b - s/(m-1)) that lie below tau*(b+1) and period_max, m being the number of whole base periods in the downsampled data: no trial is skipped, repeated or added as long as at least two periods fit in the data (a trial equal to one of these limits to floating-point accuracy may be on either side of it). "
     "The three output arrays describe the same trials, and invalid arguments raise ValueError.",
     ["inputs", "configurations"], "All data lengths, sampling times, period ranges and bin ranges, incl. searches at raw resolution, bins_min = bins_max, ranges of several downsampling cycles, and ranges longer than the data.",
     "Two tests check the output sizes and periods for a single parameter set each.",
     [CPP+"periodogram.hpp", CPP+"downsample.hpp", CPP+"python_bindings.cpp"],
     [("periodogram_length", CPP+"periodogram.hpp"), ("periodogram loop, ceilshift", CPP+"periodogram.hpp")],
     ["riptide.ffa_search -> Periodogram.periods, .foldbins, .snrs"])

prop("C08", "Periodogram S/N values are calibrated FFA + boxcar S/N",
     "The S/N at every trial period and width of a periodogram is the boxcar S/N of the corresponding row of the FFA transform of the input downsampled for that trial, in units of the standard deviation of unit-variance white input noise after the same processing, sqrt(m v): m is the number of periods summed and v the mean variance of a downsampled sample. "
     "The result depends on the data and the search parameters only: not on which wider period range the trial is part of, nor on the other width trials.",
     ["inputs", "configurations"], "All data, all ranges; downsampling factors that are 1, below 2, integers, near-integers and large; several downsampling cycles.",
     "Tests look at the best S/N of one bright signal at two parameter sets, with a downsampling factor of at most 3.",
     [CPP+"periodogram.hpp", CPP+"downsample.hpp", CPP+"transforms.hpp", CPP+"snr.hpp"],
     [("periodogram loop", CPP+"periodogram.hpp"), ("downsampled_variance", CPP+"downsample.hpp")],
     ["Periodogram.snrs"])

prop("C09", "ffa_search = deredden, then normalise, then periodogram, as documented",
     "ffa_search returns the time series actually searched, de-reddened then normalised to zero mean and unit variance unless told otherwise, and a Periodogram that is the periodogram of exactly these data, for boxcar widths 1, then W(n+1) = max(floor(wtsp W(n)), W(n)+1) up to ducy_max*bins_min. "
     "period_max is capped at the data length over fpmin, and a range that lies above the cap gives an empty periodogram. "
     "The input time series is not modified and its metadata is carried over to both outputs.",
     ["inputs", "configurations"], "All combinations of the ffa_search arguments on data of any mean, scale, red noise content and length.",
     "Tests call it with two argument sets, and never check fpmin, widths, the returned time series or the input afterwards.",
     ["riptide/search.py", "riptide/ffautils.py", "riptide/time_series.py", "riptide/periodogram.py"],
     [("ffa_search", "riptide/search.py"), ("generate_width_trials", "riptide/ffautils.py")],
     ["riptide.ffa_search"])

prop("C10", "A periodic signal is recovered at its period, phase-independent, at its S/N",
     "A search of noiseless data containing a periodic pulse train of amplitude A finds its highest S/N within one pulse width of total drift of the true period (two when the data are downsampled by a factor less than 2), at a level within 10% of the S/N obtained by folding exactly at the true period with the same bins and boxcar widths, whichever the period, phase, duty cycle, sampling time and downsampling involved, provided that the pulse is at least 3 bins wide and the data contain at least 10 periods. "
     "Injected in white noise the same search reports it as the top peak with a S/N within the statistical error of that value.",
     ["inputs", "configurations"], "All periods, initial phases, duty cycles (a few bins up to ducy_max), sampling times, bin ranges; with and without noise.",
     "Tests inject one signal of one period at one phase.",
     [CPP+"periodogram.hpp", CPP+"downsample.hpp", CPP+"snr.hpp", "riptide/search.py", "riptide/peak_detection.py", "riptide/libffa.py"],
     [("the whole search chain", "riptide/search.py"), ("S/N calibration", CPP+"downsample.hpp"), ("find_peaks", "riptide/peak_detection.py")],
     ["riptide.ffa_search", "riptide.find_peaks"])

prop("C11", "find_peaks reports the brightest trial of every significant cluster, only",
     "For each trial width, the peaks reported are the highest-S/N trials of the clusters (friends-of-friends in frequency with radius clrad/T) formed by the trials whose S/N exceeds both smin and the fitted threshold: none is missed, duplicated or invented. "
     "That threshold is the degree polydeg polynomial in log(frequency) fitted to median + nstd * IQR/1.349 of the S/N in consecutive segments of width segwidth/T, or smin when there are fewer than minseg segments; its coefficients are returned for every width. "
     "Each peak carries the frequency, period, width, duty cycle, indices, S/N and DM of its own trial, and peaks are sorted by decreasing S/N.",
     ["inputs", "configurations"], "All periodograms (number of trials from 0 up, any S/N values, number of widths) and all parameter values.",
     "Tests check one noisy periodogram with a single bright signal, default parameters.",
     ["riptide/peak_detection.py", "riptide/clustering.py"],
     [("segment_stats, fit_threshold, find_peaks_single", "riptide/peak_detection.py")],
     ["riptide.find_peaks"])

prop("C12", "1D clustering is the friends-of-friends partition",
     "cluster1d(x, r) returns a partition of the indices of x in which two points belong to the same cluster if and only if they are linked by a chain of points separated by no more than r, whichever the order and multiplicity of the points. "
     "Clusters come in increasing order of x, or in the order of the input if declared already sorted (increasing or decreasing), and an empty input gives no clusters.",
     ["inputs"], "All arrays (unsorted, with ties, gaps exactly equal to r), all r >= 0, both values of already_sorted.",
     "There is no direct test.",
     ["riptide/clustering.py"],
     [("cluster1d", "riptide/clustering.py")],
     ["riptide.clustering.cluster1d"])

prop("C13", "Folding co-adds the data at the right phase and conserves it",
     "Folding at period P with b bins is the input downsampled to bins of P/b seconds, cut into m consecutive periods, m being the number of whole periods that fit in the data (up to rounding errors), and scaled by 1/sqrt(m f), f being the downsampling factor. "
     "subints = None gives the m x b array (1-D of shape (b,) if there is a single period), 1 its sum over periods with shape (b,), and any other allowed number k exactly k rows of equal duration whose sum is that same profile. "
     "Periods longer than the data, bins shorter than the sampling time, subints < 1 or more subints than periods in the data raise ValueError; the time series is not modified.",
     ["inputs", "configurations"], "All lengths, sampling times, periods, bins, subints from None and 1 to the number of periods, incl. pairs (m, k) with k not dividing m.",
     "Tests check the output shapes of three calls.",
     ["riptide/folding.py", CPP+"downsample.hpp"],
     [("fold, downsample_vertical", "riptide/folding.py")],
     ["TimeSeries.fold"])

prop("C14", "TimeSeries operations keep their invariants along any history",
     "After any sequence of operations on TimeSeries objects (construction from any source, copy, normalise, deredden, downsample, fold, in place or not) the data are a float32 array, nsamp, length, tobs and metadata['tobs'] are consistent with it and with the sampling time, and the values are those of the same sequence of operations on a plain array model. "
     "An in-place operation changes the object exactly into what its out-of-place version returns, which leaves the original untouched; a copy, or an object created with copy=True, shares no state with its source. "
     "normalise gives zero mean and unit variance for any scale and offset.",
     ["histories", "inputs"], "All sequences of operations with all arguments, on several live objects derived from each other.",
     "Tests call each method once on a fresh object.",
     ["riptide/time_series.py", "riptide/metadata.py"],
     [("TimeSeries methods", "riptide/time_series.py"), ("Metadata copy", "riptide/metadata.py")],
     ["riptide.TimeSeries"])

prop("C15", "JSON serialization round-trips every riptide object",
     "Saving to JSON and loading back any TimeSeries, Periodogram, Candidate, or list, dict or nesting of these with plain values, arrays, DataFrames (numeric or not) and sky coordinates gives an object of the same type with equal contents: bit-identical arrays with the same dtype and shape, equal metadata, equal coordinates, writable data. "
     "The loaded object is as usable as the original one, carries the version it was saved with, and a second round trip yields the same text.",
     ["inputs", "histories"], "All array dtypes, shapes (0-d, empty, multi-dimensional) and memory layouts, all metadata, all objects and nestings.",
     "One test round-trips one TimeSeries and checks its data only; the pipeline test loads one candidate.",
     ["riptide/serialization.py", "riptide/candidate.py", "riptide/periodogram.py", "riptide/time_series.py", "riptide/metadata.py"],
     [("JSONEncoder / object_hook", "riptide/serialization.py"), ("to_dict / from_dict", "riptide/candidate.py")],
     ["riptide.save_json", "riptide.load_json"])

prop("C16", "Any valid SIGPROC time series is read faithfully, bad ones are rejected",
     "Reading a well-formed SIGPROC file (32-bit float, or 8-bit with its signedness given; keys in any order, optional keys absent or present, extra keys declared by the caller) gives exactly the samples that follow the header as float32, the sampling time, every header attribute, and the metadata derived from them: coordinates, DM, MJD, source name, absolute path, length. "
     "Multi-channel data, other bit depths, 8-bit data of unknown signedness, undeclared keys, a wrong start flag or a header that stops short raise an exception: never silently wrong data.",
     ["inputs", "fault_sequences"], "All headers, data lengths and sample values; all truncation points of the header.",
     "Tests read three small files of the repository.",
     ["riptide/reading/sigproc.py", "riptide/metadata.py", "riptide/time_series.py"],
     [("read_sigproc_header", "riptide/reading/sigproc.py"), ("Metadata.from_sigproc", "riptide/metadata.py"), ("TimeSeries.from_sigproc", "riptide/time_series.py")],
     ["TimeSeries.from_sigproc", "Metadata.from_sigproc"])

prop("C17", "Any valid PRESTO time series is read faithfully, bad ones are rejected",
     "Reading a well-formed PRESTO .inf file (radio, X-ray or gamma; with or without on/off pairs; any notes; any file name with dots) gives every documented field with its type, the derived metadata (coordinates, DM, MJD, source name, length, absolute path), and exactly the float32 samples of the .dat file that shares its base name. "
     "High-energy data raise a UserWarning; artificial data sets, unsupported bands and truncated or misaligned headers raise an exception.",
     ["inputs", "fault_sequences"], "All field values, observing bands, numbers of on/off pairs, file names, data contents, all truncation points of the header.",
     "Tests read three .inf files of the repository.",
     ["riptide/reading/presto.py", "riptide/metadata.py", "riptide/time_series.py"],
     [("inf2dict", "riptide/reading/presto.py"), ("Metadata.from_presto_inf", "riptide/metadata.py")],
     ["TimeSeries.from_presto_inf", "Metadata.from_presto_inf"])

prop("C18", "DM trial selection covers the DM range with the fewest trials",
     "The DM trials selected by the pipeline are trials of the input within [min, max] (max being capped at dmsinb_max/|sin b|), sorted, without repetition, starting at the lowest and ending at the highest available one. "
     "Consecutive trials are such that their coverage intervals (DM +- max(wmin, intra-channel smearing) over the band dispersion constant) leave no gap, unless they are adjacent input trials, and each step is the longest with this property. "
     "Files are then served once each, in order of DM and in chunks of the requested size; band parameters come from the files when available, else from the caller; an empty selection or inconsistent sky coordinates raise an exception.",
     ["inputs", "configurations"], "All DM trial lists in any order, bands, channel numbers, minimum widths, limits, Galactic latitudes, file orders, chunk sizes.",
     "The pipeline tests use three DM trials so far apart that every one of them is selected.",
     ["riptide/pipeline/dmiter.py"],
     [("select_dms", "riptide/pipeline/dmiter.py"), ("DMIterator", "riptide/pipeline/dmiter.py")],
     ["riptide.pipeline.DMIterator"])

prop("C19", "Configurations are accepted if and only if every field is valid",
     "A pipeline configuration is accepted exactly if all its fields are present where required, of the documented type and within their documented bounds, blank only where documented, with no unknown field; the validated configuration has the same values as the input. "
     "Anything else raises InvalidPipelineConfig. "
     "Search ranges that need finer sampling than the coarsest input offers, for the search or for the candidate folding, or that are not contiguous and increasing, raise InvalidSearchRange before any search.",
     ["configurations"], "All valid configurations, and every single-field corruption (missing, wrong type, out of bounds, unknown) of them; all sets of ranges and sampling times.",
     "Tests try four corrupted configurations.",
     ["riptide/pipeline/config_validation.py", "riptide/pipeline/config/example.yaml", "riptide/pipeline/pipeline.py"],
     [("schemas", "riptide/pipeline/config_validation.py"), ("validate_ranges", "riptide/pipeline/config_validation.py")],
     ["Pipeline(config)", "Pipeline.prepare"])

prop("C20", "The harmonic test flags exactly the pairs within all three distances",
     "For two candidates, htest relates H to F through the fraction p/q of H.freq/F.freq; the faster-to-slower ratio is approximated by the closest fraction whose denominator is at most denom_max. "
     "It reports a relation if and only if the drift between H and p/q F over the observation is within phase_distance_max pulse widths of the faster one, their dispersion delay difference within dm_distance_max times the narrower pulse, and the S/N of H within snr_distance_max of F.snr/sqrt(pq). "
     "The outcome does not depend on which of the two is faster beyond inverting the fraction.",
     ["inputs"], "All pairs of frequencies (harmonic, sub-harmonic, rational, unrelated, equal), duty cycles, DMs, S/N, bands, thresholds.",
     "Only exercised through one pipeline run, no direct test.",
     ["riptide/pipeline/harmonic_testing.py"],
     [("hdiag, htest", "riptide/pipeline/harmonic_testing.py")],
     ["riptide.pipeline.harmonic_testing.htest"])

prop("C21", "Pipeline stages lose and invent nothing from peaks to candidate files",
     "For any set of detected peaks, the clusters are the friends-of-friends partition of all peaks in frequency; ranks number them by decreasing S/N; a cluster is flagged as a harmonic if and only if the harmonic test relates it to a brighter cluster that is itself not a harmonic, and then of the brightest such one, with the fraction given by the test. "
     "The clusters turned into candidates are exactly those passing the DM, S/N and harmonic filters, and the brightest max_number of these; each candidate is folded from the time series of its best DM with the bins and subints of its period range. "
     "The peaks, clusters, candidates tables and candidate files list exactly these, by decreasing S/N where ranked.",
     ["histories", "configurations"], "All peak lists (harmonic families, several DMs, ties in S/N, empty) and all filter, clustering, flagging and range settings.",
     "The pipeline tests run on one bright signal and on noise, with two configurations, and look at the top candidate.",
     ["riptide/pipeline/pipeline.py", "riptide/pipeline/peak_cluster.py", "riptide/candidate.py"],
     [("cluster_peaks, flag_harmonics, apply_candidate_filters, build_candidates, save_products", "riptide/pipeline/pipeline.py"), ("PeakCluster", "riptide/pipeline/peak_cluster.py")],
     ["peaks.csv, clusters.csv, candidates.csv, candidate_NNNN.json"])

prop("C22", "The pipeline finds what the library finds, however the work is scheduled",
     "The peaks found by the end-to-end pipeline are exactly the union, over the selected DM trials and the search ranges, of the peaks the library functions find in each file, for both file formats. "
     "Its output files do not depend on the number of processes, on the order in which the input files are given, or on the output directory; a run that finds nothing ends normally and writes no tables or candidates. The command rffa, with any of its options and relative or absolute paths, writes to the given directory (by default the current one) what the library writes, and the log to the requested file.",
     ["schedules", "configurations", "inputs"], "All sets of input files and orders, numbers of processes, formats, range settings.",
     "Tests run one order and two processes, and do not compare with the library.",
     ["riptide/pipeline/pipeline.py", "riptide/pipeline/worker_pool.py", "riptide/pipeline/dmiter.py"],
     [("WorkerPool", "riptide/pipeline/worker_pool.py"), ("Pipeline.process", "riptide/pipeline/pipeline.py")],
     ["riptide.pipeline.Pipeline.process", "rffa command line"])

prop("C23", "Native kernels never read or write outside their buffers",
     "No call of the native functions, with arrays of any size, dtype, dimensionality or memory layout and any parameter values, reads or writes outside the input and output arrays, uses undefined arithmetic on them or crashes the interpreter, for any finite parameter values: it either returns arrays of the documented shapes or raises a Python exception. "
     "Results on a memory layout that is not contiguous are either refused or equal to those on a contiguous copy.",
     ["inputs"], "All sizes incl. 0 and 1, all shapes, strides, dtypes; parameters in and out of their domain (factors, widths, shifts, periods, bins).",
     "Out-of-bounds accesses by one element are invisible to functional tests; the released bugs of this kind in the changelog were all found by users.",
     [CPP+"python_bindings.cpp", CPP+"periodogram.hpp", CPP+"downsample.hpp", CPP+"snr.hpp", CPP+"kernels.hpp", CPP+"transforms.hpp", CPP+"running_median.hpp", CPP+"block.hpp"],
     [("size computations", CPP+"downsample.hpp"), ("argument checks", CPP+"python_bindings.cpp")],
     ["riptide.libcpp, built with AddressSanitizer and UBSan"])

prop("C24", "rseek reports exactly the clustered peaks of the library search",
     "The table returned and printed by rseek for a file is the list of peaks found by ffa_search and find_peaks with the parameters given on the command line, with peaks closer than clrad/Tobs in frequency merged into the brightest one, by decreasing S/N. "
     "Every option takes effect as documented, both formats give the same table for the same data, and if nothing is found it says so and returns nothing.",
     ["inputs", "configurations"], "All data files, formats and option values.",
     "Tests run one bright signal and one noise file with default options.",
     ["riptide/apps/rseek.py", "riptide/search.py", "riptide/peak_detection.py", "riptide/clustering.py"],
     [("run_program", "riptide/apps/rseek.py")],
     ["rseek"])

prop("C25", "Generated test signals have the requested shape, amplitude and period",
     "A generated noiseless signal is the sampled von Mises pulse train of the requested period, phase and duty cycle (FWHM over period), scaled to a square sum equal to the squared amplitude over the generated samples; it peaks at phi0 and is periodic. "
     "Noise of the requested standard deviation is added to it and nothing else; TimeSeries.generate does so for round(length/tsamp) samples and records the parameters in its metadata.",
     ["inputs"], "All lengths, periods, phases, duty cycles, amplitudes, noise levels.",
     "One test generates one signal and checks its size.",
     ["riptide/libffa.py", "riptide/time_series.py"],
     [("generate_signal", "riptide/libffa.py"), ("TimeSeries.generate", "riptide/time_series.py")],
     ["riptide.TimeSeries.generate"])

prop("C26", "Metadata always satisfies its schema and reserved keys",
     "A Metadata object can be built exactly from a mapping of string keys to JSON-serializable values in which each reserved key present has its documented type and range or is None; anything else raises an exception. "
     "It then contains all the given items unchanged plus the missing reserved keys set to None, is independent of the mapping it was built from, and stays so through to_dict / from_dict.",
     ["inputs"], "All mappings, incl. each reserved key with a wrong type, negative or zero value, non-string keys, unserializable values.",
     "Only exercised with the valid metadata of a few files.",
     ["riptide/metadata.py"],
     [("SCHEMA", "riptide/metadata.py")],
     ["riptide.Metadata"])

prop("C27", "Candidates summarise their cluster and fold, whatever the subints",
     "A candidate made from a cluster carries the parameters of its brightest peak, a table with one row per peak, the metadata of its time series and the fold at the peak's period with the requested bins and subints, or as many subints as whole periods if the request does not fit. "
     "Its profile is the sum over subints of that fold, its DM curve the best S/N for each distinct DM in increasing order. "
     "It can be plotted, as a figure that shows these sub-integrations, profile, DM curve and parameters, and saved as an image for any number of subints, whichever of its DM, source name, date and sky coordinates are known.",
     ["inputs", "configurations"], "All clusters (any number of peaks, DMs, ties), periods, bins, subints None, 1, and up to more than fit.",
     "Only the top candidate of one pipeline run is looked at.",
     ["riptide/candidate.py", "riptide/pipeline/peak_cluster.py", "riptide/folding.py"],
     [("Candidate", "riptide/candidate.py"), ("PeakCluster.summary_dict / summary_dataframe", "riptide/pipeline/peak_cluster.py")],
     ["riptide.Candidate"])

prop("C28", "Native vector primitives match their documented definitions",
     "For all array sizes n >= 1 and non-negative arguments, rollback(x, k) equals the input rotated left by k, fused_rollback_add(x, y, k) equals x plus y rotated left by k (k of any size, taken modulo n), and circular_prefix_sum(x, nsum) returns the nsum first cumulative sums of x repeated endlessly, for nsum smaller, equal to or many times larger than n. "
     "Inputs are not modified and arrays of different sizes are refused.",
     ["inputs"], "All sizes, shifts (0, n, multiples, larger), nsum, finite data.",
     "They are not tested directly; the prefix sum beyond one wrap is never reached by any caller in the tests.",
     [CPP+"kernels.hpp", CPP+"python_bindings.cpp"],
     [("rollback, fused_rollback_add, circular_prefix_sum", CPP+"kernels.hpp")],
     ["riptide.libcpp.rollback", "riptide.libcpp.fused_rollback_add", "riptide.libcpp.circular_prefix_sum"])

prop("C29", "Results depend on the arguments only, along any history of calls",
     "In one process, in any order and any number of times (numerical functions: also from several threads), a call gives the result it gives on its own in a fresh process: nothing is remembered from earlier calls, failed ones included (headers read, declared keys, configurations, figures, buffers, random state). "
     "No call changes its inputs, the results of earlier calls or the state of the process (working directory, open files, numpy's error and random state, except that generated noise draws from the latter). "
     "One Pipeline object that processes several sets of files one after the other gives for each the products that a new one gives.",
     ["histories", "schedules"], "All sequences of calls of the public functions on shared inputs, valid or refused; all sequences of file sets through one Pipeline.",
     "Each test makes one call on fresh data; a leak needs two particular calls in the same process.",
     ["riptide/time_series.py", "riptide/search.py", "riptide/metadata.py", "riptide/reading/sigproc.py", "riptide/pipeline/pipeline.py", CPP+"python_bindings.cpp"],
     [("Pipeline.process", "riptide/pipeline/pipeline.py"), ("native module", CPP+"python_bindings.cpp")],
     ["all public functions", "Pipeline.process"])

prop("C30", "A failing run says so, is contained, and can be repeated",
     "When something a pipeline run needs is broken (an input file or its data missing, truncated, unreadable, too short or of another sky position; no or unusable output directory; a product that cannot be written; invalid configuration, DM range, search range or command line), Pipeline.process() raises and the command rffa ends with a non-zero status: it does not hang, leaves no worker process behind, does not change the inputs, and unless it failed while saving writes nothing; once repaired, the run (also of the same Pipeline object) gives the products of a run that never failed. "
     "What a run does not need has no influence: data of DM trials that are not selected, products of earlier runs (overwritten) and other files of the output directory (kept). "
     "A selected cluster that cannot be folded is left out and the other candidates are built and saved as without it.",
     ["fault_sequences", "crash_points", "histories"], "All kinds of faults listed, on any of the files, at preparation, search, candidate building and saving, through the library and the command line, for any number of processes.",
     "The tests only make runs that succeed.",
     ["riptide/pipeline/pipeline.py", "riptide/pipeline/worker_pool.py", "riptide/pipeline/dmiter.py", "riptide/reading/presto.py", "riptide/reading/sigproc.py"],
     [("Pipeline.process, build_candidates, save_products", "riptide/pipeline/pipeline.py"), ("WorkerPool.process_fname_list", "riptide/pipeline/worker_pool.py")],
     ["Pipeline.process", "rffa"])

prop("C31", "Views and plots of a periodogram show its data, all of it",
     "freqs is the inverse of the trial periods and tobs the length of the data searched. plot() and display() draw, in the current axes or a figure of the requested size and resolution, the S/N of the given width index versus trial period, or if none is given the best S/N over all widths at each period, over limits that contain all trials, for any number of trials and widths and S/N of any sign; the title names the width, and the periodogram is not changed.",
     ["inputs"], "All periodograms with at least one trial and one width, all width indices, figure sizes.",
     "The tests do not look at what is plotted.",
     ["riptide/periodogram.py"],
     [("Periodogram.plot, display, freqs, tobs", "riptide/periodogram.py")],
     ["riptide.Periodogram"])

prop("C32", "Results follow the units of time and data, and no other metadata",
     "Multiplying the sampling time, all periods and all filter widths by the same factor multiplies the trial periods and the periods of the peaks by it and changes nothing else: same data searched, numbers of bins, widths, S/N, peaks, clusters, harmonics, candidates and folds. "
     "Multiplying the data by a positive factor changes no S/N (with normalisation) and multiplies de-reddened, downsampled and folded data by it; metadata other than the DM have no influence on the search. "
     "This holds for factors that are powers of two, for which nothing but decisions at rounding distance may differ.",
     ["inputs", "configurations"], "All data, search and peak detection parameters, factors of 2 to a million and their inverses; also through the pipeline on one DM trial.",
     "Tests use one sampling time and one scale.",
     ["riptide/search.py", "riptide/peak_detection.py", "riptide/time_series.py", "riptide/folding.py", CPP+"periodogram.hpp"],
     [("ffa_search", "riptide/search.py"), ("find_peaks", "riptide/peak_detection.py")],
     ["riptide.ffa_search", "riptide.find_peaks", "TimeSeries methods", "Pipeline"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
