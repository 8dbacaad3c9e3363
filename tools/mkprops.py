"""Writes /verif/properties.jsonl (kept here so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
U = "metcalcpy/util/"
prop("C01", "Categorical scores equal their contingency-table definitions",
 "For any set of 2x2 contingency-table rows (grid or neighbourhood), every categorical score the library offers equals its published formula applied to the column totals of hits, false alarms, misses and correct negatives (scores defined from other scores use their reported values), rounded half-up to the stated precision. When the formula is undefined for those totals (a zero denominator, the logarithm of zero) or a needed column is absent or entirely missing, the result is the missing value, never some other number. The same holds for the multi-category Heidke score with its expected-correct value.",
 ["inputs"], "every table: any number of rows, any non-missing or missing cells, any subset of columns",
 "Unit tests evaluate a handful of scores on one or two fixed tables; a wrong sign, swapped cell or wrong guard that coincides on those tables (or only shows for zero cells) passes.",
 [U+"ctc_statistics.py", U+"nbrctc_statistics.py", U+"mcts_statistics.py"],
 [("per-score function over column sums", U+"ctc_statistics.py:calculate_*"), ("column totals", U+"utils.py:sum_column_data_by_name")])
prop("C02", "Continuous scores equal their partial-sum definitions",
 "For any scalar, scalar-anomaly or gradient partial-sum rows, every continuous score (means, standard deviations, correlation, error moments, skill scores, anomaly correlations, gradient scores) equals its definition as a function of the partial sums divided by the total pair count, rounded half-up (scores defined from other scores use their reported values). Standard deviations and roots are missing rather than a number when their argument is negative, and any score is missing when a denominator is zero or a needed column is missing.",
 ["inputs"], "every table of partial sums, with and without aggregation by pair counts",
 "Tests fix one table per score; the definition must hold for all partial sums, including degenerate ones (zero variance, zero mean, zero total).",
 [U+"sl1l2_statistics.py", U+"sal1l2_statistics.py", U+"grad_statistics.py"],
 [("per-score functions", U+"sl1l2_statistics.py"), ("pair-count normalisation", U+"utils.py:get_total_values")])
prop("C03", "Wind-vector scores equal their vector partial-sum definitions",
 "For any vector or vector-anomaly partial-sum rows, every wind score (speeds, directions, speed and direction errors, vector mean-square errors, variances, bias, anomaly correlations) equals its definition from the vector partial sums normalised by the pair count, rounded half-up. Scores are missing when undefined, and directions and direction errors are in degrees, measured the same way for forecast, observation and difference vectors.",
 ["inputs"], "every table of vector partial sums, with and without aggregation by pair counts",
 "Tests cover a few scores on a single table; most component combinations and all degenerate cases are never exercised.",
 [U+"vl1l2_statistics.py", U+"val1l2_statistics.py", U+"vcnt_statistics.py"],
 [("per-score functions", U+"vcnt_statistics.py"), ("direction and speed helpers", U+"met_stats.py")])
prop("C04", "Ensemble and neighbourhood scores equal their definitions",
 "For any ensemble-continuous, spread-skill, ranked-probability or neighbourhood-continuous rows, every score equals its definition from the column totals normalised by the pair count (spreads and RMSEs are square roots of pooled variances, skill scores are one minus the ratio to climatology, bias ratio is the ratio of conditional errors), rounded half-up. A score is missing exactly when a needed column is missing or its denominator or root argument makes it undefined.",
 ["inputs"], "every table of ensemble, ranked-probability, spread-skill or neighbourhood rows",
 "Most of these scores have no unit test or one example; the formula and its undefined cases range over all inputs.",
 [U+"ecnt_statistics.py", U+"ssvar_statistics.py", U+"rps_statistics.py", U+"nbrcnt_statistics.py"],
 [("per-score functions", U+"ecnt_statistics.py"), ("neighbourhood scores", U+"nbrcnt_statistics.py")])
prop("C05", "Probability scores follow the Brier decomposition and ROC definition",
 "For any table of probability bins, the Brier score, reliability, resolution, uncertainty, base rate and skill scores equal their definitions from the bin event and non-event counts, so Brier = reliability - resolution + uncertainty up to rounding (resolution being taken about the supplied climatology). ROC points are the hit and false-alarm rates of each threshold, taken in order of threshold value (for probability bins from cumulated counts, running from (1,1) down), stay within [0,1], and the ROC area is the trapezoidal area under those points.",
 ["inputs"], "every list of thresholds and non-negative bin counts, in any row order",
 "Tests use two fixed tables; the identities must hold for every binning, for unordered rows and for empty bins.",
 [U+"pstd_statistics.py", U+"ctc_statistics.py"],
 [("bin table and Brier parts", U+"pstd_statistics.py:process_row/process_scores"), ("ROC from contingency rows", U+"ctc_statistics.py:calculate_ctc_roc")])
prop("C06", "Object-based ratios count exactly the objects they name",
 "For any table of identified objects, every object-count ratio is (number of objects in the named numerator class) / (number in the named denominator class) and every area or volume ratio is the corresponding ratio of summed sizes, where a class is given by source (forecast/observed), simple/cluster and matched/unmatched flags. The two- and three-dimensional variants give the same ratio restricted to objects of that dimensionality, and an empty denominator (or, for summed sizes, an empty class) gives the missing value.",
 ["inputs"], "every object table: any number of objects, any flags, sizes and dimensionality mix",
 "No stable unit test covers any of these ~200 ratios; flag combinations are easy to swap and only differ on particular populations.",
 [U+"mode_ratio_statistics.py", U+"mode_arearat_statistics.py", U+"mode_2d_ratio_statistics.py", U+"mode_2d_arearat_statistics.py", U+"mode_3d_ratio_statistics.py", U+"mode_3d_volrat_statistics.py"],
 [("row filters by flag", U+"utils.py:column_data_by_name_value"), ("ratio functions", U+"mode_ratio_statistics.py")])
prop("C07", "Aggregated statistics are pair-count weighted, whatever the row split",
 "Aggregating several rows of a line type gives each row a weight equal to its number of matched pairs: the statistic of a group equals the statistic of the single row that pools the same pairs. It therefore does not depend on row order or on how the same pairs were split into rows.",
 ["inputs", "histories"], "every group of rows of a supported line type and every statistic offered for it",
 "Tests aggregate one fixed file; order and partition independence quantify over all groupings, and a forgotten weight is invisible when totals are equal.",
 ["metcalcpy/agg_stat.py", U+"utils.py", "metcalcpy/sum_stat.py"],
 [("weighting before aggregation", "metcalcpy/agg_stat.py:_prepare_*_data"), ("group sums", U+"utils.py:calc_series_sums"), ("pair-count division", U+"utils.py:get_total_values")])
prop("C08", "Statistics always return a finite number or the missing value",
 "Whatever table a statistic is asked for - empty, with absent columns, missing cells, all-zero counts or negative variances - the call returns either a finite number or the missing value; it never raises and never returns infinity or not-a-number. A column that is absent or has only missing cells is never treated as zero.",
 ["inputs"], "every statistic the aggregator or bootstrap can dispatch to, on every numeric table",
 "The failing inputs are degenerate ones (zero denominators, empty bins, absent columns) that fixed-table tests do not contain.",
 [U+"*_statistics.py", U+"utils.py"],
 [("guarded computation returning the missing value", U+"*_statistics.py: try/except"), ("missing-aware sums", U+"utils.py:sum_column_data_by_name")])
prop("C09", "Statistics depend only on their arguments and leave them intact",
 "Calculating a statistic does not change the data table, the column list or the configuration it was given, and its result depends only on those arguments: the same call gives the same result whatever statistics were calculated before it in the process and whatever the interpreter's warning filters were.",
 ["histories", "inputs"], "every statistic, every table, every earlier sequence of library calls",
 "Tests call each statistic once in a fresh state; leaking warning filters or in-place edits only matter for particular call histories.",
 [U+"*_statistics.py", U+"utils.py"],
 [("warning filters set at entry", U+"*_statistics.py"), ("row filters work on copies", U+"utils.py:column_data_by_name_value")])
prop("C10", "Each aggregated output row is computed from exactly its own data rows",
 "The aggregated output has exactly one row for every combination of series values, independent-variable value and statistic (followed by the derived curves), and each row's statistic is calculated from exactly the input rows whose fields match that combination, a grouped value matching any of its members. The reported row count is the number of those rows.",
 ["inputs", "configurations"], "every input table and every series / independent-variable / statistic configuration",
 "The end-to-end tests use two fixed configurations; mis-assigned or double-counted rows depend on the combination of groups, types and missing combinations.",
 ["metcalcpy/agg_stat.py", "metcalcpy/agg_stat_bootstrap.py", "metcalcpy/agg_eclv.py", "metcalcpy/sum_stat.py", "metcalcpy/scorecard.py"],
 [("row filters per point", "metcalcpy/agg_stat.py:_proceed_with_axis"), ("statistic dispatch", "metcalcpy/agg_stat.py:_calc_stats")])
prop("C11", "Event equalization keeps exactly the cases common to every series",
 "Event equalization returns exactly the input rows, unaltered and in order, whose case (valid time and lead, plus the independent variable where requested) occurs in every combination of series and fixed values (values of time fields, which are part of the case, aside); equalizing against a list of cases keeps exactly the rows whose case is listed. Hence it never invents or duplicates rows, and equalizing an already equalized table removes nothing.",
 ["inputs", "configurations"], "every table and every series / fixed-value configuration",
 "Tests check row counts on three fixed files; the common-case property quantifies over all tables and groupings.",
 ["metcalcpy/event_equalize.py", "metcalcpy/event_equalize_against_values.py", U+"utils.py", "metcalcpy/agg_stat_event_equalize.py", "metcalcpy/agg_stat_eqz.py"],
 [("case key and intersection over permutations", "metcalcpy/event_equalize.py"), ("membership in listed cases", "metcalcpy/event_equalize_against_values.py")])
prop("C12", "Bootstrap resamples are valid and intervals are ordered percentiles",
 "Every bootstrap replicate consists of as many rows as the data, drawn with replacement from all of the data, in circularly consecutive blocks of the requested length; the reported value is the statistic of the original data. The percentile interval is the alpha/2 and 1-alpha/2 percentiles of the non-missing replicate statistics with lower <= upper, and is missing when the replicates are all equal or the statistic itself is missing; the pivotal interval is the same percentiles mirrored about the value. Adding to, subtracting from or scaling a value with its interval moves the value and both ends alike, keeping lower <= upper.",
 ["inputs", "schedules"], "every data set, block length, alpha, iteration and batch count, and every draw of the random generator",
 "Random draws make test assertions loose; wrap-around, batch boundaries and constant replicates are corner cases the fixed-seed tests do not reach.",
 ["metcalcpy/bootstrap.py"],
 [("circular block indices", "metcalcpy/bootstrap.py:_generate_distributions_cbb"), ("percentile interval", "metcalcpy/bootstrap.py:_get_confidence_interval_and_value, _get_confidence_interval_and_value_eclv"), ("arithmetic", "metcalcpy/bootstrap.py:BootstrapResults")])
prop("C13", "Derived curves and significance signs follow their definitions",
 "A derived curve value is the element-wise difference, ratio, skill (first minus second over first) or copy of its two component values, and is missing whenever a component is missing, lengths differ or the divisor is zero. The significance sign adjustment is missing for statistics without a perfect score, negates the p-value exactly when the first model is farther from the statistic's perfect score than the second, and otherwise returns it unchanged; the derived-curve name states operation and both components.",
 ["inputs"], "every pair of component values, operation, statistic name and p-value",
 "Tests check a few examples; membership tables, zero divisors and missing elements are input-dependent.",
 [U+"utils.py"],
 [("derived value", U+"utils.py:calc_derived_curve_value"), ("sign adjustment", U+"utils.py:perfect_score_adjustment"), ("name", U+"utils.py:get_derived_curve_name")])
prop("C14", "Shared numeric helpers: rounding, column sums, filters, permutations",
 "Decimal rounding returns the multiple of the requested decimal unit nearest to its argument, ties going up, and never differs from it by more than half a unit. A column sum is the sum of the present cells of the named column and missing when the column is absent or has no present cell; a row filter keeps exactly the rows equal to every requested value; permutations enumerate every combination exactly once.",
 ["inputs"], "every number, precision, table, column name, filter and list of value lists",
 "Everything else rests on these; tests give a few numbers and one table.",
 [U+"utils.py"],
 [("rounding", U+"utils.py:round_half_up"), ("sums and filters", U+"utils.py:sum_column_data_by_name, column_data_by_name_value"), ("permutations", U+"utils.py:create_permutations, create_permutations_mv")])
prop("C15", "Paired equivalence test reports consistent statistics and outcome",
 "The paired equivalence test reports the mean difference, the two one-sided t statistics against the two bounds with their p-values, and confidence intervals centred on the difference that widen as confidence grows, all in agreement with the Student t definitions. The combined outcome is the conjunction of 'different from zero' (t-test p-value at or below alpha) and 'equivalent to zero' (larger one-sided p-value at or below alpha), for all p-values including ties and zero.",
 ["inputs"], "every sample size, means, deviations, correlation, bounds and alpha in their valid ranges",
 "Tests pin one data set; the outcome table has to be total and consistent over all p-value combinations.",
 [U+"tost_paired.py", U+"utils.py"],
 [("test and outcome", U+"tost_paired.py, "+U+"utils.py:tost_paired")])
prop("C16", "Scorecard significance levels are monotone, symmetric and correctly signed",
 "The scorecard significance of two paired series is, with the EMC method, the documented level of their standardised difference (0 inside the 95% interval, then .95, .99 and 1 as it grows, thresholds by number of days) and, with the NCAR method, the two-sided confidence of the paired t statistic. Its sign says which model is better under the statistic's orientation, so swapping two models that are not equally good negates it. The derived scorecard value for plain difference and single curves is the mean of the paired differences or of the single series.",
 ["inputs"], "every pair of equally long series, statistic name and number of days",
 "Tests compare one configuration with stored output; thresholds and orientation branches depend on the data.",
 ["metcalcpy/scorecard.py"],
 [("significance codes", "metcalcpy/scorecard.py:_calculate_diff_sig_emc/_ncar"), ("derived rows", "metcalcpy/scorecard.py:_get_stats_for_derived")])
prop("C17", "Serial-correlation and standard-error helpers match their definitions",
 "The lag-one autocorrelation coefficient (least squares), autocovariance / autocorrelation sequences, runs test, correlation tables and the standard errors of mean, median and sum equal their statistical definitions on the non-missing values, whether these are whole numbers or fractions. Autocorrelations of complete series start at 1 and stay in [-1,1], p-values lie in [0,1], and standard errors are zero for constant data or fewer than three values.",
 ["inputs"], "every list of numbers with or without missing entries, every maximum lag and alternative",
 "Tests pin single example series; bounds and missing-value handling quantify over all series.",
 [U+"correlation.py", U+"wald_wolfowitz_runs_test.py", U+"utils.py"],
 [("autocorrelation", U+"correlation.py:acf, "+U+"utils.py:autocor_coef"), ("runs test", U+"wald_wolfowitz_runs_test.py"), ("standard errors", U+"utils.py:compute_std_err_*"), ("correlation table", U+"correlation.py:corr")])
prop("C18", "Economic value curve equals the cost/loss definition",
 "For any contingency table and list of cost/loss ratios strictly between 0 and 1, the relative economic value at each ratio equals the cost/loss definition from hit rate, false-alarm rate and base rate, is at most 1 and equals 1 for a perfect forecast; its maximum is hit rate minus false-alarm rate attained at the base rate. Ratios are reported in increasing order, one value per ratio.",
 ["inputs"], "every contingency table with both events and non-events, every list of ratios, with and without the base rate added",
 "One fixed table is tested; the definition ranges over all tables and ratios, with two branches of the formula.",
 [U+"eclv_statistics.py", U+"ctc_statistics.py", "metcalcpy/agg_eclv.py"],
 [("economic value", U+"ctc_statistics.py:calculate_economic_value, "+U+"eclv_statistics.py")])
prop("C19", "Vertical interpolation is a correct linear interpolation between levels",
 "At every grid point the vertically interpolated value is a convex combination of the field at the two model levels that bracket the requested level, with weights linear in height, so a field linear in height is reproduced and no value outside the bracketing values appears; points below or above all levels take the nearest level's value. Units of the requested level and of the coordinate are converted, and the input field is not modified. Heights of pressure levels add, from the surface upward, the hypsometric thickness of the layer above the surface at the virtual temperature of its upper level, and are missing below the surface; the command's output file holds these values with the coordinates, attributes, valid time and reference time (UTC) of its input.",
 ["inputs", "configurations"], "every strictly increasing column of level heights, every field, every requested level and unit; every decreasing column of pressures and surface pressure",
 "There is no unit test of this; positions of a level relative to a column (interior, exactly on a level, top, outside) are input-dependent.",
 ["metcalcpy/vertical_interp.py"],
 [("bracketing weights", "metcalcpy/vertical_interp.py:vertical_interp"), ("heights of pressure levels", "metcalcpy/vertical_interp.py:height_from_pressure"), ("files", "metcalcpy/vertical_interp.py:read_required_fields, write_dataset")])
prop("C20", "Storm-relative wind components are a rotation of the input wind",
 "At every point the radial and tangential winds are the projections of the horizontal wind on orthonormal axes fixed by the azimuth, the tangential axis being the radial axis turned by +90 degrees, so kinetic energy is preserved and the transformation depends on azimuth only through its angle modulo 360. A file gives the same winds in whatever order it stores its dimensions, and its other fields are kept.",
 ["inputs"], "every wind field and azimuth grid",
 "Not unit-tested; sign or axis mix-ups keep shapes and magnitudes plausible.",
 ["metcalcpy/process_tcrmw.py"],
 [("rotation", "metcalcpy/process_tcrmw.py:compute_wind_components"), ("order of dimensions", "metcalcpy/process_tcrmw.py:read_tcrmw")])
prop("C21", "Difficulty index equals its definition and piecewise-linear tapering",
 "The forecast difficulty index at every point equals half the taper of the mean times the sum of the normalised relative spread and the closeness of the under-threshold ensemble fraction to one half; the piecewise-linear taper interpolates exactly between its knots and uses the given outside values. Invalid knots (unsorted, unequal lengths) and invalid spreads are rejected rather than silently used.",
 ["inputs"], "every ensemble field, threshold, positive spread and knot list",
 "Tests pin two small arrays; the formula, bounds and rejection of bad input quantify over all fields.",
 ["metcalcpy/calc_difficulty_index.py", "metcalcpy/piecewise_linear.py"],
 [("index", "metcalcpy/calc_difficulty_index.py:_difficulty_index"), ("taper", "metcalcpy/piecewise_linear.py:PiecewiseLinear")])
prop("C22", "Longitude conversion, directional means and zonal waves are exact",
 "Longitude conversion returns, in increasing order, for each longitude the equivalent angle in [-180,180) (or the requested window) together with the permutation that produced it. The zonal mean is the arithmetic mean along longitude, the meridional mean is the cosine-of-latitude weighted mean over exactly the requested latitude band, and the contributions of all zonal wavenumbers sum to the original field with amplitudes and phases that reconstruct it.",
 ["inputs"], "every longitude list, every field on any latitude/longitude grid, every latitude band",
 "Tests check a fixed list of longitudes and fixed fields; band limits, odd grid sizes and windows vary per input.",
 [U+"utils.py", "metcalcpy/pre_processing/directional_means.py", "metcalcpy/pre_processing/waves.py"],
 [("longitudes", U+"utils.py:convert_lon_360_to_180, convert_lons_indices"), ("means", "metcalcpy/pre_processing/directional_means.py"), ("waves", "metcalcpy/pre_processing/waves.py")])
prop("C23", "Space-time decomposition splits, windows and smooths as defined",
 "The symmetric and antisymmetric parts of a field about the equator are its even and odd parts at the northern latitudes, each at its own latitude, and flipping longitudes keeps every value at its longitude. Tapering multiplies by weights in [0,1]; the 1-2-1 smoother leaves constants unchanged, replaces interior points by the weighted average of their neighbours and keeps missing values in place. Power, co- and quadrature spectra are the products of the Fourier components averaged over latitudes and segments, all in the same order with each row and column at its own frequency and wavenumber, and coherence and phase follow from them.",
 ["inputs"], "every field on a latitude grid symmetric about the equator, every segment length",
 "The only test of the spectral code is skipped for lack of data; orderings depend on the parity of every dimension.",
 ["metcalcpy/contributed/spacetime/spacetime.py", "metcalcpy/contributed/spacetime/spacetime_utils.py"],
 [("parts, taper, smoother and spectra", "metcalcpy/contributed/spacetime/spacetime.py"), ("longitude flip", "metcalcpy/contributed/spacetime/spacetime_utils.py:lonFlip")])
prop("C24", "Configuration text is read faithfully",
 "Reading a configuration replaces, in plain and !ENV-tagged values, each ${NAME} by the value of that environment variable (or by the bare name when it is unset), any number of times per value, and changes nothing else. Text classification helpers accept exactly integers, exactly decimal fractions, and exactly the words True and False.",
 ["inputs", "configurations"], "every configuration text, environment and string",
 "Only a few strings are tested; replacement and classification range over all strings.",
 [U+"read_env_vars_in_config.py", U+"utils.py"],
 [("environment substitution", U+"read_env_vars_in_config.py:parse_config"), ("classification", U+"utils.py:is_string_integer, is_string_strictly_float, parse_bool")])
prop("C25", "Validation tool selects the right tests and deletes only its outputs",
 "The validation tool tests exactly the XML files of the input directory whose modification date lies in the requested inclusive period (yesterday to today by default), in sorted order, and rejects a period that ends before it starts. It empties its four output directories first; afterwards it deletes, only for a plot whose new image is identical (or missing like the old one), the new image and test and the files in the data and script directories whose names start with that plot's name. Nothing else is deleted or changed.",
 ["inputs", "histories"], "every directory content, modification date, period and plot name",
 "Two simple period cases are tested; selection and deletion depend on directory content.",
 ["metcalcpy/validate_mv_python.py", "metcalcpy/compare_images.py"],
 [("selection", "metcalcpy/validate_mv_python.py:get_test_xml, get_testing_period"), ("deletion", "metcalcpy/validate_mv_python.py:clean, delete_similar_files")])
MJ = "metcalcpy/contributed/rmm_omi/compute_mjo_indices.py"
prop("C26", "MJO indices are least-squares coefficients of correctly filtered fields",
 "Each pair of MJO coefficients is the least-squares coefficients of that time's field on the two patterns (for OMI those of its day of the year), normalised as documented, and the mean removed from each time is that of the previous 120 days; fields on another grid than the patterns raise ValueError. The band-pass filters keep exactly the components whose periods (and eastward wavenumbers) lie in the requested range, after detrending and tapering, for odd and even numbers of times and longitudes. The zonal variance and tapers follow their definitions, and input fields are left unmodified.",
 ["inputs"], "every field, pattern, time step, start day, period and wavenumber range",
 "The MJO code has no unit tests; its indexing depends on time step, day of the year and the parity of dimensions.",
 [MJ],
 [("projection", MJ+":regress_vector_onto_eofs, regress_3dim_data_onto_eofs"), ("recent mean", MJ+":rem_120day_mean"), ("filters", MJ+":bandpass_filter_3D, perform_3dim_spectral_filtering"), ("indices", MJ+":rmm, omi")])
WB = "metcalcpy/contributed/blocking_weather_regime/"
prop("C27", "Weather regimes are ordered by frequency and matched consistently",
 "Regimes are numbered from 1 by decreasing frequency, and labels, patterns and fractions all refer to that numbering; matching forecast to observed regimes gives each observed place the forecast regime of highest pattern correlation, with its pattern, fraction and labels. Moving-window frequencies count the labelled days of each window, anomalies are departures from the mean over years weighted by cosine of latitude, leading patterns and their reconstruction satisfy their definitions, and the suggested number of clusters is the point of the curve farthest below its chord. Daily files are read in order with missing values for a missing file, and written listings and matched pairs (none for a day without forecast) hold the given dates, positions and values.",
 ["inputs", "configurations"], "every field, labelling, number of regimes, window length and set of files",
 "There are no unit tests for regimes; index permutations that coincide for already sorted clusters go unnoticed.",
 [WB+"WeatherRegime.py", WB+"Blocking_WeatherRegime_util.py"],
 [("ordering", WB+"WeatherRegime.py:run_K_means"), ("window counts", WB+"WeatherRegime.py:compute_wr_freq"), ("matching", WB+"Blocking_WeatherRegime_util.py:reorder_fcst_regimes_correlate"), ("files", WB+"Blocking_WeatherRegime_util.py:read_nc_met, write_mpr_file")])
prop("C28", "Blocked longitudes and their groups follow the blocking definitions",
 "A longitude is instantaneously blocked exactly when, for one of the configured shifts of its central blocking latitude (that of the largest latitude-weighted standard deviation of the anomalies, smoothed around the circle), the mean height over the configured half-width to the north exceeds that to the south. Blocked longitudes no farther apart than the configured distance, also across the prime meridian, form a group, which is kept with its gaps filled exactly when it spans at least the configured number of longitudes. Groups at most two days apart that overlap by more than the configured number of longitudes form a block, reported exactly when it lasts the configured number of groups before its centre has travelled farther than allowed.",
 ["inputs", "configurations"], "every height field on a one-degree hemisphere, every set of blocked longitudes and configuration",
 "There are no unit tests for blocking; groups across the prime meridian and non-default distances occur only in particular data.",
 [WB+"Blocking.py"],
 [("blocking index", WB+"Blocking.py:run_mod_blocking1d, run_Calc_IBL"), ("central latitude", WB+"Blocking.py:run_CBL"), ("groups", WB+"Blocking.py:run_Calc_GIBL"), ("blocks", WB+"Blocking.py:run_Calc_Blocks")])
MA = "metcalcpy/contributed/spacetime/matsuno_plot.py"
prop("C29", "Equatorial-wave curves satisfy their dispersion relations",
 "For every equivalent depth, meridional mode, latitude and wavenumber grid, each reported frequency (in cycles per day) of a Kelvin, mixed Rossby-gravity, Rossby or inertio-gravity wave satisfies the dispersion relation of that wave, on the branch and the side of wavenumber zero belonging to it, and is missing on the other side. The tables of all curves hold each curve under its own name, depth and mode, at its own wavenumbers.",
 ["inputs"], "every positive equivalent depth, mode, latitude and list of wavenumbers",
 "The curves have no unit tests; frequencies are roots of a cubic whose wanted branch depends on the parameters.",
 [MA],
 [("curves", MA+":kelvin_mode, mrg_mode, eig_n_0, er_n, eig_n, wig_n"), ("tables", MA+":matsuno_dataframe, matsuno_modes_wk")])
CC = "metcalcpy/contributed/tropical_diagnostics/ccew_activity.py"
prop("C30", "Equatorial-wave filters and activity indices match their definitions",
 "Filtering a time-longitude field keeps exactly its zonal wavenumbers (eastward positive) within the requested range, its frequencies within the requested periods and, for a named wave, between its dispersion curves at the two equivalent depths, and returns a field of the same size. Wave activity at each time is the root of the sum of squared projections, over the patterns' grid points, of the anomalies (from the mean of the calendar day if days come back, else from the time mean) on each pattern of the month or year. Skill is the correlation of each line with the first at each lead time, leading patterns are ordered singular vectors with their shares of variance for time in any position, and inputs are not modified.",
 ["inputs", "configurations"], "every field, period and wavenumber range, equivalent depth, wave and set of patterns",
 "None of this has unit tests; off-by-one wavenumbers, calendar days and odd lengths leave plausible fields.",
 [CC, "metcalcpy/contributed/spacetime/spacetime.py"],
 [("filter", "metcalcpy/contributed/spacetime/spacetime.py:kf_filter, kf_filter_mask"), ("activity", CC+":waveact, rem_seas_cyc, rem_seas_mean, waveproj"), ("skill and patterns", CC+":wave_skill, eof_comp")])
EN = "metcalcpy/contributed/mjo_enso/compute_mjo_enso.py"
prop("C31", "MJO-ENSO stress, wind power and coupling indices follow their definitions",
 "The MJO stress at each sea point is the sum over the first four patterns of the pattern's coefficient at that time multiplied by the sum over all times of band-passed stress times coefficient divided by the coefficient's standard deviation, and is missing on land; the wind power at each point is current times MJO stress, both components added, times the normalised meridional structure of the equatorial Kelvin wave. The monthly MaKE and MaKI indices are the minima over the ninety days up to the first of the month of the first standardised coefficient plus the absolute, respectively signed, second one, divided by their standard deviation. Each index is labelled with its month and inputs are not modified.",
 ["inputs"], "every field, filter, set of patterns and record that starts on the first of January",
 "There are no unit tests; normalisations and windows change values but no shapes.",
 [EN],
 [("stress", EN+":calc_tau_MJO"), ("wind power", EN+":calc_wpower_MJO"), ("indices", EN+":make_maki")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    print(len(P))
