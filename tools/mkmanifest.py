"""Writes /verif/MANIFEST.json from the table of checks below."""
import json
import os
PROOF = ('contract-based deductive verification: every obligation (result == specification, no exception, frame) generated by '
         'symbolic execution of the function\'s current source and discharged by a rational-function normaliser, z3 and cvc5; '
         'counter-models replayed on the real code; the same specification also evaluated as a run-time contract on bounded inputs')
CHECKS = {}


def check(prop, level='proof', technique=PROOF, note=''):
    CHECKS[prop] = {'property': prop, 'quick_cmd': '/opt/venv/bin/python check.py %s' % prop,
                    'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % prop,
                    'evidence_file': 'evidence/%s.json' % prop, 'technique': technique, 'level': level, 'level_note': note}


REAL = 'Floats are treated as mathematical reals; numpy/math operations by contract (pydv/models.py). '
check('C01', note=REAL + 'Tables of any number of rows, abstracted to missing-aware column totals; counts non-negative. '
      'The multi-category Heidke score is checked the same way over the cells of one table layout.')
check('C02', note=REAL + 'Tables of any number of rows, any real partial sums, pair counts non-negative, both aggregation modes.')
check('C03', note=REAL + 'As C02; atan2/sin/cos abstract with range and sign facts.')
check('C04', note=REAL + 'As C02.')
check('C05', note=REAL + 'Brier scores and ROC from probability bins proved for tables of 1 to 3 bins with arbitrary counts; longer tables and the '
      'ROC from contingency rows with many thresholds are a bounded run-time check.')
check('C06', note=REAL + 'Object tables with any number of objects; volume ratios proved for the listed column layouts.')
check('C07', note=REAL + 'Through the aggregation program from input frame to output frame, any number of rows, present cells, every statistic of the '
      'contingency, partial-sum, vector, ensemble, ranked-probability, spread-skill and neighbourhood line types; pooled rows of grouped values per line '
      'type. The regrouping itself and the summary program are bounded run-time checks. Row order is not represented in the proofs.')
check('C08', note=REAL + 'Every (table, columns) statistic found in the current source; no overflow of floating point.')
check('C09', note=REAL + 'Every (table, columns) statistic found in the current source: equal results under three entry warning filters, arguments, '
      'module data and numpy error state unchanged. ROC frames: bounded.')
check('C10', note=REAL + 'Proved for input tables of any number of rows and any cells in fifteen listed configurations (several series variables, groups, '
      'dates, numeric values, both axes, derived curves); generated other configurations, probability bins, categories, thresholds '
      'taken from the data, appended output, equalized input, derived curves of groups, equivalence curves and the object program are bounded run-time checks.')
check('C11', note=REAL + 'Selections of tables of any number of rows proved equal to the specified selection (set normal form of row predicates) for listed series and '
      'fixed values and for any list of cases; generated parameters, two axes and the file programs for objects are bounded run-time checks. '
      'Row order is not represented in the proofs.')
check('C12', note=REAL + 'Intervals proved for every value of at most four replicates, resamples for one to seven rows and every draw of the random '
      'generator (draws are unknowns); larger data, worker processes, curves of economic value and the interval columns of the aggregation program (also against the exact '
      'distribution over all resamples of at most four rows) are bounded run-time checks.')
check('C13', note=REAL + 'Curve lists of at most three points proved for every value (longer lists at run time); significance signs for every '
      'statistic of the orientation tables; curve names are a bounded check.')
check('C14', note=REAL + 'Column sums over tables of any number of rows; row filters and columns for the listed shapes; permutations bounded.')
check('C18', note=REAL + 'Any contingency table; proved for lists of at most three cost/loss ratios (two for tables of any number of rows) and three '
      'probability rows, longer lists at run time; the output file of the command is a bounded check.')
check('C15', note=REAL + 'Every sample size, mean, deviation, correlation, bound and alpha; Student t distribution and quantile functions abstract (range, '
      'symmetry, sign). The equivalence bounds of a derived curve are a bounded check.')
check('C16', note=REAL + 'Significance levels proved for every value of two to five pairs and any number of days, longer series at run time; the rows '
      'for plain differences and single curves, and the path through the command\'s files, are bounded checks.')
check('C17', note=REAL + 'Proved for every value of series of at most four or five entries with listed missing patterns, longer series at run time; '
      'normal distribution function abstract. Correlation tables and revision series are bounded checks.')
check('C19', note=REAL + 'Proved for every field, strictly increasing column of at most four heights and requested level, with xarray executed on symbolic '
      'elements; at most three columns, listed unit pairs. Taller and more columns at run time; heights of pressure levels and the command on files are bounded checks.')
check('C20', note=REAL + 'Proved for every wind and azimuth on grids of at most three azimuths and three levels, pi symbolic and sine/cosine with the '
      'quarter-turn identities; larger grids and single precision of the angle at run time; the command on files is a bounded check.')
check('C21', note=REAL + 'Proved for every value of at most four knots and of fields of at most two points or two members, including rejection of '
      'bad knots and spreads; larger fields at run time.')

check('C22', note=REAL + 'Proved for every value of at most three longitudes or latitudes and for transforms of 1, 2, 3, 4 and 6 longitudes, with xarray executed on symbolic '
      'numbers and the scipy transforms as their defining sums over exact roots of unity; longer grids and the xrft transforms are a bounded run-time check.')
check('C23', note=REAL + 'Proved for every value of fields of at most nine times, four longitudes and five latitudes, with the numpy transforms as their defining sums over exact '
      'roots of unity and the detrending as the least-squares line; coherence and phase enter the full cross spectrum through their own contract. Larger fields at run time.')
check('C24', note=REAL + 'Classification is proved for ASCII texts of any length, executed on a symbolic string whose tests are decided by the string theories of z3 and cvc5; '
      'substitution in configurations is a bounded run-time check over generated YAML texts and environments.')
check('C25', note=REAL + 'Period and selection are proved for every date, modification day and current day of the listed directory contents (operating system and calendar are stand-ins '
      'of the executed source); renaming, deletion and the whole tool are bounded run-time checks of the real code run by an unprivileged user in a scratch directory.')
check('C26', note=REAL + 'Coefficients, recent means, RMM, tapers and zonal variance are proved for every value of at most five times and four points, with xarray executed on symbolic '
      'numbers and least squares as the normal equations; the band-pass filters and OMI are a bounded run-time check.')
check('C27', note=REAL + 'Ordering, anomalies, reconstruction, window counts and matching are proved for every value of at most four regimes, ten days and 2 x 2 points, the clusters found and '
      'the correlations being arbitrary; leading patterns, number of clusters and files are bounded run-time checks.')
check('C28', note=REAL + 'The blocking index is proved for every height of at most nine latitudes, two longitudes and two days; groups of longitudes, blocks in time, central latitude and the calculation '
      'from files are bounded run-time checks on 360 longitudes.')
check('C29', note=REAL + 'Proved for every equivalent depth, latitude and five grids of wavenumbers: each frequency is a root of the wave\'s relation (the root finder gives some root); the branch '
      'and the tables are bounded run-time checks.')
check('C30', note=REAL + 'Anomalies proved for every value of at most four times and two points; the wave filter, projections, activity from files of patterns, skill and leading '
      'patterns are bounded run-time checks of small fields.')
check('C31', level='exploration', technique='contracts evaluated at run time on generated fields (bounded, nothing proved)',
      note='The specified stress, wind power and indices are compared with those of the current source on generated small fields; single precision of the stress is allowed for.')
NOT_APPLICABLE = []              # every property has a check
HOOKS = None
if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [CHECKS[k] for k in sorted(CHECKS)], 'not_applicable': NOT_APPLICABLE,
         'notes': 'check.py <id> decides one property from the current /repo source; see DESIGN.md'}
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    print(len(CHECKS))
