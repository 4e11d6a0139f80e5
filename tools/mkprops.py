"""Writes properties.jsonl (kept as code only to make the long lines editable)."""
import json
E = "gw_eccentricity/eccDefinition.py"
U = "gw_eccentricity/utils.py"
L = "gw_eccentricity/load_data.py"
FF = "gw_eccentricity/eccDefinitionUsingFrequencyFits.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


prop("C01", "Eccentricity obeys its defining law and limits",
     "At every time where the pericenter and apocenter frequencies wp >= wa > 0 are known, the returned eccentricity e "
     "satisfies e(3-e^2)/2 = (wp-wa)/(wp+wa): it lies in [0,1), is zero exactly when wp = wa, grows with wp/wa, and "
     "depends only on the ratio wp/wa. It is evaluated pointwise on the frequencies of the requested times (never on "
     "another element's), and asking for a time outside the measurable range is an error rather than an extrapolation.",
     ["inputs"], "all positive frequency pairs wp >= wa and all requested times",
     "The regression tests compare a few waveforms with stored numbers and tolerances; the law has to hold for every "
     "frequency pair from circular to the e->1 limit.",
     [E], [("egw conversion", E + ":et_from_ew22_0pn"), ("e_omega", E + ":compute_eccentricity")],
     ["eccentricity returned by measure_eccentricity"])

prop("C02", "Mean anomaly is the linear clock between pericenters",
     "For every measurable time t between consecutive pericenters t_i <= t < t_{i+1} the returned mean anomaly is "
     "2 pi (t - t_i)/(t_{i+1} - t_i): in [0, 2 pi), zero at every pericenter, elementwise in the requested times, and "
     "unchanged when all times are shifted or rescaled. Times outside the measurable range raise.",
     ["inputs"], "all strictly increasing pericenter times and all times in range",
     "Tests only check smooth sample waveforms at a handful of times within tolerances.",
     [E], [("linear interpolation and wrap", E + ":compute_mean_anomaly"), ("range guard", E + ":check_input_limits")],
     ["mean_anomaly returned by measure_eccentricity"])

prop("C03", "Reference times: exactly the requested times inside the measurable span",
     "With times requested, the output times are exactly the requested ones lying in the closed span [tmin, tmax], in the "
     "same order, where tmin is the later of the first pericenter and first apocenter and tmax the earlier of the last "
     "ones. Eccentricity and mean anomaly have the same length as (and are scalars for a scalar) request, the output is "
     "keyed by the kind of reference requested, and an empty intersection raises an error naming the violated side.",
     ["inputs"], "all request values/shapes against all extremum times",
     "Tests use requests well inside the waveform; the boundary, ordering and partial-overlap cases are unbounded.",
     [E], [("selection", E + ":measure_ecc"), ("result packing", E + ":make_return_dict_for_eccentricity_and_mean_anomaly"),
           ("range guard", E + ":check_input_limits")], ["dictionary returned by measure_eccentricity"])

prop("C04", "Reference frequencies: kept ones are in range and mapped to the right time",
     "With frequencies requested, the output frequencies are exactly those requested f with fmin <= f < fmax (same order), "
     "where fmin/fmax are the extremes of the chosen average frequency, and the measurement for f is made at the time "
     "where the chosen average frequency equals 2 pi f. A non-increasing average frequency, an unknown averaging choice, "
     "or an empty intersection raises instead of returning numbers.",
     ["inputs", "configurations"], "all requests, all average-frequency profiles, all three averaging choices",
     "Tests check a few inputs of one waveform; the set of requests/profiles, in particular the range ends, is unbounded.",
     [E], [("mapping", E + ":compute_tref_in_and_fref_out_from_fref_in"), ("bounds", E + ":get_fref_bounds"),
           ("filter", E + ":get_fref_out"), ("averages", E + ":get_omega_gw_average")],
     ["fref_out, tref_in of the returned object"])

prop("C05", "Orbit-averaged frequency is the phase advance per period at the midpoint",
     "The orbit average between two consecutive extrema of the same kind equals (phase difference)/(time difference) and is "
     "assigned to their temporal midpoint; pericenter and apocenter averages are merged in time order with each value kept "
     "with its own time. The mean-of-interpolants average equals the arithmetic mean of the two extremum frequencies, and "
     "averages are only used within the overlap of their own times and the measurable span.",
     ["inputs"], "all extremum positions, times and phases",
     "Tests compare only the end result for sample waveforms; swapping or misaligning averages can stay within tolerance.",
     [E], [("midpoints", E + ":get_t_average_for_orbit_averaged_omega_gw"),
           ("averages", E + ":compute_orbit_averaged_omega_gw_between_extrema"),
           ("domain", E + ":get_omega_gw_average"), ("mean", E + ":compute_mean_of_extrema_interpolants")],
     ["t_for_omega_gw_average, omega_gw_average"])

prop("C06", "Extrema cleaning keeps one regular stretch and leaves good extrema alone",
     "Whatever extrema are found, cleaning only ever removes leading or trailing ones (the survivors are a contiguous run "
     "of the found ones, in order), and regularly spaced alternating extrema are returned unchanged. After cleaning, at most "
     "one extremum of a kind lies beyond the last (or before the first) of the other kind; extrema past a phase-gap jump "
     "in the second half (ratio above 1.5), extrema before a jump in the first half (ratio below 1/1.5), and those past (or, in "
     "the first half, before and including the early member of) a pair closer than one orbit (4 pi) are the ones dropped.",
     ["inputs"], "all extremum position lists and all phases at them, up to the stated list lengths",
     "Tests use three or four hand-written lists; the rules interact for every pattern of missing/extra extrema.",
     [E], [("combination", E + ":get_good_extrema"), ("ends", E + ":drop_extra_extrema_at_ends"),
           ("jumps", E + ":drop_extrema_if_extrema_jumps"), ("too close", E + ":drop_extrema_if_too_close")],
     ["pericenters_location, apocenters_location"])

prop("C07", "The extrema found are those of the method's own data, each once, in order",
     "For the four peak-based methods the pericenters (apocenters) found, before any clean-up, are exactly the local maxima "
     "(minima) of the method's own quantity (amplitude, frequency, or what is left of it after subtracting the circular "
     "companion) among the samples before the merger cut, which satisfy the extrema-finding options of the user; by default "
     "only a minimal width of a quarter of an orbit, so that one-sample noise is not an extremum. With mid points as "
     "apocenters there is exactly one strictly between any two consecutive pericenters, at their middle. For the Fits "
     "methods the local search returns N neighbouring extrema before and N+1 after the reference (fewer only at the end of "
     "the data), and chaining the searches skips and repeats none, from the first to the last one that could be identified, "
     "with the time, value and phase of each belonging to that extremum.",
     ["inputs", "configurations"], "all sample values, options, references, and losses of extrema near merger",
     "Tests use smooth waveforms on which almost any peak finder works; skipped or repeated extrema depend on the spacing of "
     "the extrema and on where windows end.",
     [E, FF, "gw_eccentricity/eccDefinitionUsingAmplitude.py"],
     [("peak methods", "gw_eccentricity/eccDefinitionUsingAmplitude.py:find_extrema"),
      ("default width", E + ":get_width_for_peak_finder_from_phase_gw"),
      ("chaining", FF + ":find_extrema"), ("local search", FF + ":FindExtremaNearIdxRef"),
      ("mid points", E + ":get_apocenters_from_pericenters")],
     ["find_extrema of the returned object", "pericenters_location, apocenters_location"])

prop("C08", "Pre-merger truncation removes exactly the requested orbits from all data alike",
     "With n orbits excluded, every mode's amplitude, phase and frequency and the time array are cut to the same leading "
     "part: all samples before the one whose GW phase is nearest to (phase at merger) - 4 pi n; with exclusion disabled "
     "nothing is cut. A negative n, or an n longer than the data, raises, and the circular companion data are never cut.",
     ["inputs", "configurations"], "all phase profiles (in particular several modes at once), n real and non-negative",
     "Tests run the default value on (2,2)-only data of a few waveforms.",
     [E], [("truncation", E + ":process_data_dict"), ("index", E + ":get_index_at_num_orbits_earlier_than_merger"),
           ("width", E + ":get_width_for_peak_finder_from_phase_gw")], ["dataDict of the returned object"])

prop("C09", "Measuring never modifies the caller's data or options and is repeatable",
     "No measurement changes any array, mode dictionary, option dictionary or list handed in by the caller, whatever data "
     "form, method, frame, truncation or options are used and also when the measurement raises. Consequently measuring the "
     "same inputs again gives the same result.",
     ["inputs", "configurations", "histories"], "all data forms x methods x options; repeated calls; failing calls",
     "The tests deep-copy the inputs before calling, which hides exactly this.",
     [E, FF, "gw_eccentricity/gw_eccentricity.py", U],
     [("processing", E + ":process_data_dict"), ("copy of phases/amps", E + ":get_amp_phase_omega_data"),
      ("coprecessing transform", E + ":transform_inertial_to_coprecessing"), ("time shift", FF + ":find_extrema")],
     ["caller's dataDict, extra_kwargs after the call"])

prop("C10", "All accepted data forms describe the same waveform",
     "Supplying complex modes h = A exp(-i phi), or the amplitude and phase themselves, or additionally the frequency, leads "
     "to the same amplitude, phase (up to a constant) and frequency being analysed, for the eccentric and the circular data "
     "and in the inertial precessing frame; precessing systems use half the sum of the (2,2)/(2,-2) amplitudes and half the "
     "difference of their phases and frequencies. Contradictory, incomplete or wrong-sign data raise instead of being used.",
     ["inputs", "configurations"], "all amplitudes/phases and every combination of supplied keys",
     "Tests cover one waveform per form; the combinations with circular/precessing data are not covered.",
     [E, U], [("forms", E + ":get_amp_phase_omega_data"), ("validation", E + ":process_data_dict"),
              ("combination", E + ":get_amp_phase_omega_gw"), ("frame", E + ":transform_inertial_to_coprecessing")],
     ["amp_gw, phase_gw, omega_gw"])

prop("C11", "Frequency is the exact fourth-order time derivative of the phase",
     "The numerical derivative returns, for data sampled on a uniform grid, the exact derivative at every sample including "
     "both ends for every polynomial of degree up to four; it is linear in the data, invariant under constant offsets, and "
     "scales as 1/dt. Every data array is differentiated sample by sample with output of the same length.",
     ["inputs"], "all data values, all time steps, all lengths >= 5 up to the bound",
     "Tests check only smooth waveforms within tolerance; end stencils carry a handful of coefficients each.",
     [U], [("stencil", U + ":time_deriv_4thOrder"), ("use", E + ":get_omegalm_from_phaselm")], ["omega_gw"])

prop("C12", "Merger time is the vertex of the local parabola of the global amplitude peak",
     "The merger time is the vertex of the parabola through the five samples nearest the largest value of the all-mode amplitude "
     "(square root of the sum of squares over every mode): exact for parabolic peaks, equivariant under shifting/rescaling "
     "time and rescaling amplitude, and close to the largest sample even when that is near an end of the data. The all-mode amplitude does not "
     "depend on mode order or phases.",
     ["inputs"], "all amplitude values around the peak and all uniform grids",
     "Tests look at one or two waveforms; a wrong vertex shifts everything by a sub-sample amount inside tolerances.",
     [U], [("peak", U + ":peak_time_via_quadratic_fit"), ("amplitude", U + ":amplitude_using_all_modes")], ["t_merger"])

prop("C13", "Short-segment mode uses at least the requested orbits around the reference",
     "When only N orbits around the reference are to be used, the analysed segment is a contiguous part of the data that "
     "contains every reference point and extends at least N/2 orbits to each side, shifting orbits to the other side when the "
     "data end, and never fails merely because of the ends. Time, amplitude, phase and frequency are cut identically.",
     ["inputs", "configurations"], "all monotone phase profiles, reference times anywhere in the data, N >= 1",
     "Tests use one waveform with a few references in the middle.",
     [E], [("segment", E + ":_get_segment_indices"), ("bounds", E + ":_get_phase_bounds"),
           ("extra orbits", E + ":_compute_additional_orbits"), ("slicing", E + ":_update_waveform_data_segment")],
     ["t, amp_gw, phase_gw, omega_gw of the object"])

prop("C14", "Options: unknown ones are rejected, given ones win, the rest take their defaults",
     "For every option dictionary, an unknown option name raises; otherwise each value given by the caller is used as given "
     "and every other option has its documented default, at the top level and inside the nested option groups. Neither the "
     "caller's dictionaries nor the defaults for later calls are changed, an unknown method name raises, and each method name "
     "selects its own implementation.",
     ["inputs", "configurations"], "all subsets of options and values, including nested and unknown names",
     "Tests only pass a few valid combinations.",
     [U, E, "gw_eccentricity/gw_eccentricity.py"],
     [("merge", U + ":check_kwargs_and_set_defaults"), ("use", E + ":__init__"),
      ("dispatch", "gw_eccentricity/gw_eccentricity.py:measure_eccentricity")], ["extra_kwargs of the object"])

prop("C15", "Debug level decides only between silence, warning and error",
     "At level -1 nothing is reported, at 0 only important messages become warnings, at 1 every message is a warning and at 2 "
     "every message is an error; any other level is refused with an error. The level never changes the measured numbers: "
     "the same input gives the same outcome at -1, 0 and 1, and at 2 whenever level 1 has nothing to report.",
     ["inputs", "configurations"], "all levels x importance x message sites",
     "Tests run at default level only.",
     [U, E], [("policy", U + ":debug_message")], ["warnings raised", "exceptions"])

prop("C16", "Zero result only on request, for long data lacking extrema",
     "Zero eccentricity and anomaly are returned if and only if that fallback was requested, fewer than two pericenters or "
     "apocenters were found, and the analysed data span more than five orbits; then outputs have the shape of the request and "
     "are all zero at all requested times or frequencies. In every other case with fewer than two extrema an error is raised.",
     ["inputs", "configurations"], "all extremum counts, phase spans, request shapes and flag values",
     "Tests use one circular waveform.",
     [E], [("decision", E + ":check_num_extrema"), ("zero result", E + ":set_eccentricity_and_mean_anomaly_to_zero"),
           ("order of steps", E + ":measure_ecc")], ["returned dictionary"])

prop("C17", "Rational-fit degree search ends, and ends on an admissible fit",
     "For every pattern of monotone/non-monotone outcomes the degree search terminates; the degrees used always leave the fit "
     "determined (number of coefficients below the number of points), are at least 1 when the starting degrees are balanced and there are four points or more, and the fit returned is one whose "
     "rate of change was found monotone, or else the documented spline fallback. Within one fit, the coefficients returned "
     "are those of the iteration with the smallest residual seen.",
     ["inputs", "histories"], "all outcome sequences, point counts and starting degrees up to the bound",
     "Tests run a few waveforms whose fits behave; the search history space is not sampled.",
     [E, "gw_eccentricity/rational_fit.py", U],
     [("search", E + ":get_rational_fit_for_extrema"), ("reduction", U + ":get_reduced_degrees"),
      ("fit", "gw_eccentricity/rational_fit.py:RationalFit")], ["rational_fit_degrees, interpolants"])

prop("C18", "Residual data align the circular waveform at merger and guard extrapolation",
     "Residual methods subtract, at each eccentric sample, the circular amplitude/frequency evaluated after shifting its time "
     "axis so that both mergers coincide, so residuals are unchanged by any time offset of the circular data. Circular data "
     "with uneven steps, starting after the eccentric data or ending before the merger raise, and no result is returned at "
     "times beyond the circular data.",
     ["inputs"], "all time offsets, lengths and values of the circular data",
     "Tests use one pair of waveforms generated together with comfortable overlap.",
     [E], [("residuals", E + ":compute_res_amp_gw_and_res_omega_gw"), ("late guard", E + ":measure_ecc")],
     ["res_amp_gw, res_omega_gw"])

prop("C20", "The precession filter acts only when required and only above its cutoff",
     "For precessing data, filtering happens exactly when the mean peak of the mode asymmetry exceeds the chosen fraction of "
     "the mean peak of the residual and filtering is not switched off; otherwise, and for modes without any asymmetry, the "
     "half sum/difference of the modes is measured unchanged, as for a non-precessing system. In each segment the spin and "
     "eccentricity frequencies are the highest peaks of their bands, the cutoff is the trough between them, and the filtered "
     "data are the trend plus the residual without what lies above the cutoff (for any padding and taper, including none); the "
     "combination stays aligned with the times and between the overlapping segments. Original arrays are kept, the phase "
     "integrates the filtered frequency, the measurement uses the filtered arrays, and then leaves out the first pericenter "
     "and apocenter.",
     ["inputs", "configurations"], "all mode data, spectra, verdicts and filter options within the bound",
     "Tests use two precessing waveforms with the default filter options.",
     ["gw_eccentricity/spin_filter.py", E],
     [("filter", "gw_eccentricity/spin_filter.py:check_and_filter_spin_induced_oscillations"),
      ("verdict", "gw_eccentricity/spin_filter.py:check_filter_requirement"),
      ("segments", "gw_eccentricity/spin_filter.py:FilterSpinInducedOscillations"),
      ("use", E + ":measure_ecc")], ["omega_gw_filtered"])

prop("C21", "Batch runs measure each selected sample once, also across restarts",
     "For every number of workers, chunking, completion order, failure pattern and interruption point, the final table holds "
     "one result per selected sample, each attached to its own sample index, and a restart recomputes only samples not yet "
     "saved. A failed sample yields an empty result with the failure recorded and never stops or shifts the others.",
     ["schedules", "crash_points", "fault_sequences"], "all interruption points and failure patterns within the bound",
     "There are no tests for post-processing.",
     ["gw_eccentricity/postprocess/core.py", "gw_eccentricity/postprocess/postprocess.py",
      "gw_eccentricity/postprocess/postprocess_cli.py"],
     [("scheduling", "gw_eccentricity/postprocess/postprocess.py")], ["result files"])

prop("C22", "Post-processing sample selections mean what they say",
     "Every sample specification (all, single indices, ranges, lists) selects exactly the samples it names, in order and "
     "without duplicates, and anything malformed or out of range is rejected.",
     ["inputs"], "all specification strings up to the bound and all table sizes",
     "There are no tests for post-processing.",
     ["gw_eccentricity/postprocess/postprocess_cli.py"],
     [("parsing", "gw_eccentricity/postprocess/postprocess_cli.py")], ["selected indices"])

prop("C23", "Waveform loading passes each parameter on and covers the eccentric data",
     "Loading hands every user parameter (masses from q, spins, eccentricity, anomaly, starting frequency, step) to the "
     "generator unchanged in meaning, converts units consistently in both directions, and the circular companion always "
     "starts no later than the eccentric data.",
     ["inputs", "configurations"], "all parameter values; stand-in generator records what it is given",
     "Loader tests need external data or LAL and check one system.",
     [L], [("LAL wrapper", L + ":load_LAL_waveform"), ("circular companion", L + ":get_zeroecc_dataDict_for_nr")],
     ["arguments at the generator boundary, returned dictionaries"])

prop("C24", "A measurement does not depend on units, time origin or overall scale",
     "Shifting all times, rescaling all times (with frequencies rescaled inversely), rescaling all amplitudes or adding a "
     "constant phase leaves the measured eccentricity and mean anomaly at corresponding reference points unchanged, for "
     "requests by time and by frequency and with every extremum-finding method.",
     ["inputs", "configurations"], "all shifts, all positive scales; each method",
     "Tests check stored numbers for fixed units; the relation is over all units.",
     [E, U, FF], [("pipeline", E + ":measure_ecc"), ("setup", E + ":__init__")],
     ["dictionary returned by measure_eccentricity"])

prop("C26", "Interpolation never extrapolates silently",
     "Every interpolation used in a measurement passes exactly through its data, refuses targets outside the data span unless "
     "extrapolation is explicitly allowed, rejects unsorted or repeated abscissae, and does not alter the option dictionary "
     "it is given.",
     ["inputs", "configurations"], "all abscissae/targets/options up to the bound",
     "Tests do not exercise the guards.",
     [U], [("guards", U + ":get_interpolant"), ("evaluation", U + ":interpolate")], ["interpolated values, exceptions"])

prop("C27", "Comparing two measurements: same times, anomalies compared on the circle",
     "compute_errors_between_methods returns exactly the requested times which both measurements contain (from the later "
     "start up to, excluding, the earlier end, further narrowed by the user's limits, in the order of the request), the two "
     "measurements' own values at those times, the absolute difference of the eccentricities, and for the mean anomalies "
     "the shortest way round the circle (0 and 2 pi are the same), each from that time's two values alone. Measurements of "
     "different requests, and limits which leave nothing in common, are refused.",
     ["inputs"], "all spans, requests, values and limits",
     "No test covers the comparison; whether a series of anomalies crosses 2 pi before the other does depends on the data.",
     ["gw_eccentricity/compare_methods.py"],
     [("comparison", "gw_eccentricity/compare_methods.py:compute_errors_between_methods")],
     ["values returned by compute_errors_between_methods"])

prop("C28", "The returned object keeps answering consistently",
     "Asking the returned object for the eccentricity or mean anomaly again, at any selection of the output times, in any "
     "order, repeated, singly or as an array, and with other questions in between, gives the values that were returned, and "
     "changes none of them. Its derivative of eccentricity is that of the interpolant through the eccentricity at all the "
     "data's times in the measurable span and raises outside that span. The frequency range it reports for an averaging "
     "method (default: the one chosen at the start) on an object measured at given times is the smallest and largest value "
     "of that very average over its times.",
     ["inputs", "histories"], "all frequency data, queries and sequences of queries",
     "Tests measure once and look at the result; sequences of later questions to the same object are not exercised.",
     [E], [("eccentricity", E + ":compute_eccentricity"), ("mean anomaly", E + ":compute_mean_anomaly"),
           ("derivative", E + ":derivative_of_eccentricity"), ("frequency range", E + ":get_fref_bounds")],
     ["methods of gwecc_object"])

if __name__ == "__main__":
    import os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
