T_REF = 'runtime monitoring: reference-model oracle over generated workloads'
WHY_STATS = ('The tests check a handful of fixed files; {0}. Only an independent model evaluated on every generated table '
             'can tell.')
NA = []
NOTES = 'See DESIGN.md. Every check drives the real package from /repo and judges what it returned with an independent oracle.'

prop('C01', 'Contingency-table scores equal their definition on the pooled counts',
     'For every set of 2x2 contingency rows (plain or neighbourhood), each categorical score equals its textbook '
     'definition evaluated on the four counts summed over the rows, to seven decimals, however the counts are split over '
     'rows and whatever the column order. Where the definition divides by zero or takes the logarithm of zero the score is '
     'missing, never a number and never an error.',
     ['inputs'], 'all tables of non-negative counts, any number of rows, any split of the same counts, any column order',
     WHY_STATS.format('zero margins, huge counts and uneven splits are not sampled'),
     [U + 'ctc_statistics.py', U + 'nbrctc_statistics.py', U + 'utils.py'],
     [('calculate_* categorical scores', U + 'ctc_statistics.py'), ('column sums', U + 'utils.py:sum_column_data_by_name')],
     T_REF + ' (exact rational arithmetic)',
     'every observed call is compared with exact rational arithmetic; reach is the generated tables only',
     observe=['return value of every calculate_* score'])
prop('C02', 'Thresholds sort by value then operator and the ROC curve follows them',
     'Sorting rows by threshold orders them by threshold value and then by operator (<, <=, == or none, >=, >) in the '
     'requested direction, keeps every row intact and leaves the input table unchanged. The ROC table built from '
     'contingency rows has one row per distinct threshold in that same order, with hit rate and false-alarm rate computed '
     'from the counts pooled over all rows of the threshold.',
     ['inputs'], 'all tables of thresholds with any mixture of operators and numeric values, or percentile-type texts; '
                 'both directions',
     WHY_STATS.format('thresholds of different digit counts, negative values and text thresholds with every operator are '
                      'not sampled'),
     [U + 'ctc_statistics.py'],
     [('sort_by_thresh', U + 'ctc_statistics.py'), ('calculate_ctc_roc', U + 'ctc_statistics.py')],
     T_REF, 'order, row set and pooled rates judged on every observed sort; generated thresholds only')
prop('C03', 'Continuous statistics from partial sums equal those of the raw samples',
     'For any set of matched forecast/observation pairs, the scalar, anomaly and gradient statistics computed from their '
     'partial sums equal the statistics of the pairs themselves, whether the sums come as one row of means or as many rows '
     'weighted by their number of pairs. A statistic that is undefined for the sample (division by zero, a single pair for '
     'a standard deviation, constant data for a correlation) is missing and never an error.',
     ['inputs'], 'all samples, all ways of cutting them into rows, both conventions',
     WHY_STATS.format('unequal totals, single pairs, constant data and zero means are not sampled'),
     [U + 'sl1l2_statistics.py', U + 'sal1l2_statistics.py', U + 'grad_statistics.py', U + 'utils.py'],
     [('division by total when aggregated', U + 'utils.py:get_total_values'),
      ('calculate_* statistics', U + 'sl1l2_statistics.py')],
     T_REF + ' on raw samples', 'tolerances follow the documented 7-decimal rounding of intermediates; ill-conditioned '
     'cases are reported as undecided')
prop('C04', 'Wind-vector statistics equal those of the raw vectors',
     'For any set of forecast and observed wind vectors, the vector statistics (speeds, RMS, vector error, variances, '
     'speed and direction errors, anomaly correlations) computed from partial sums equal those of the vectors themselves, '
     'for one row of means and for many weighted rows. Directions are degrees clockwise from north from which the mean '
     'wind blows, in 0-360; the direction error is the signed angle in -180..180, positive when the forecast is '
     'counter-clockwise of the observation, and calm mean winds have no direction.',
     ['inputs'], 'all vector samples, all ways of cutting them into rows, both conventions',
     WHY_STATS.format('no test exercises the vector statistics with a known answer'),
     [U + 'vcnt_statistics.py', U + 'vl1l2_statistics.py', U + 'val1l2_statistics.py', U + 'met_stats.py'],
     [('calculate_vcnt_*', U + 'vcnt_statistics.py'), ('calc_direction, calc_speed', U + 'met_stats.py')],
     T_REF + ' on raw samples', 'near-calm and ill-conditioned samples are undecided')
prop('C05', 'Ensemble statistics pool rows by their number of pairs',
     'Ensemble continuous scores, ranked probability scores and spread/skill statistics of many rows equal the score of '
     'the pooled sample: means weighted by the number of pairs, root-mean-square quantities through their squares, skill '
     'scores as one minus the ratio of pooled scores, conditional mean errors weighted by their own counts. Undefined '
     'ratios are missing.',
     ['inputs'], 'all tables of ensemble score rows with arbitrary totals, both conventions',
     WHY_STATS.format('one file with one statistic is tested'),
     [U + 'ecnt_statistics.py', U + 'rps_statistics.py', U + 'ssvar_statistics.py'],
     [('weighted_average', U + 'ecnt_statistics.py'), ('calculate_rpss', U + 'rps_statistics.py')],
     T_REF, 'as C03')
prop('C06', 'Probability scores equal those of the individual probability forecasts',
     'From a table of event and non-event counts per probability bin the Brier score, its reliability, resolution and '
     'uncertainty, the skill score, base rate, calibration and ROC area equal those of the individual forecasts the table '
     'stands for (each forecast taking its bin value). The Brier score is reliability minus resolution plus uncertainty, '
     'the ROC area is the probability that an event received the higher forecast, and empty bins never matter.',
     ['inputs'], 'all bin layouts and counts, any number of rows, empty bins, missing classes',
     WHY_STATS.format('only the ROC area of one file is tested; the others are never called'),
     [U + 'pstd_statistics.py'], [('_calc_common_stats', U + 'pstd_statistics.py'),
                                  ('calculate_pstd_*', U + 'pstd_statistics.py')],
     T_REF + ' (exact rational arithmetic)', 'the base rate column is supplied consistent with the table')
prop('C07', 'Neighbourhood and multi-category scores equal those of the pooled data',
     'Neighbourhood continuous scores (fractions Brier and skill scores, asymptotic and useful skill, rates) of many rows '
     'equal those of the pooled fraction fields weighted by their number of points. The multi-category skill score equals '
     'hits minus expected over total minus expected on the summed category table, with cells addressed by their stated '
     'row and column and not by position.',
     ['inputs'], 'all fraction fields and category tables, any row split, any cell order',
     WHY_STATS.format('neither family has a test'),
     [U + 'nbrcnt_statistics.py', U + 'mcts_statistics.py'],
     [('calculate_nbr_*', U + 'nbrcnt_statistics.py'), ('calculate_mcts_hss_ec', U + 'mcts_statistics.py')],
     T_REF, 'as C03')
prop('C08', 'Object ratios count exactly the objects their names stand for',
     'Every object ratio named <first>_<second> is the number (or total area, or total volume) of objects in the first '
     'class divided by that of the second, where the three letters of a class select forecast/observation/all, '
     'simple/cluster/all and matched/unmatched/all; the 2-D and 3-D variants look only at objects of that type. Object '
     'hits are half the matched simple objects, misses and false alarms the unmatched simple observation and forecast '
     'objects, and CSI, POD and FAR are their usual combinations; a zero denominator gives a missing value.',
     ['inputs'], 'all tables of objects with any mixture of flags, types and sizes',
     WHY_STATS.format('no object ratio is tested at all'),
     [U + f for f in ('mode_ratio_statistics.py', 'mode_arearat_statistics.py', 'mode_2d_ratio_statistics.py',
                      'mode_2d_arearat_statistics.py', 'mode_3d_ratio_statistics.py', 'mode_3d_volrat_statistics.py')],
     [('class filters', U + 'mode_ratio_statistics.py'), ('column_data_by_name_value', U + 'utils.py')],
     T_REF, 'weights of empty classes may be reported as missing')
prop('C09', 'Economic value curves follow the cost/loss decision model',
     'For every cost/loss ratio the economic value computed from contingency or probability rows equals the expense saved '
     'relative to climatology divided by the saving of a perfect forecast, on the counts pooled over the rows (probability '
     'rows above the threshold count as yes forecasts), with hit rate, false-alarm rate, base rate and maximum value to '
     'match. The batch program writes one curve per series and threshold; a table without events or without non-events '
     'gives missing values and never ends the run, and a larger alpha gives narrower intervals.',
     ['inputs', 'configurations'], 'all count tables, ratios between 0 and 1, series layouts, seeds and alphas',
     WHY_STATS.format('one contingency file with the default step is tested'),
     [U + 'ctc_statistics.py', U + 'eclv_statistics.py', 'metcalcpy/agg_eclv.py'],
     [('calculate_economic_value', U + 'ctc_statistics.py'), ('calculate_eclv', U + 'eclv_statistics.py'),
      ('AggEclv.calculate_stats_and_ci', 'metcalcpy/agg_eclv.py')],
     T_REF + ' (exact arithmetic), metamorphic relation on the interval',
     'adding the base rate as an extra point is judged for single curves, not for the batch program')
prop('C10', 'The bootstrap resamples whole rows uniformly and reports the asked percentiles',
     'Every resample has as many rows as the table, each an unaltered row of it, drawn with replacement and uniformly; with '
     'a block length the rows come in circular runs of that length, and the number of resamples is the number requested '
     'whatever the batch size. The reported value is the statistic of the original rows and the bounds are the alpha/2 and '
     '1-alpha/2 percentiles of the resample statistics (reflected about the value for the pivotal method), with undefined '
     'resamples ignored and no bounds when all are equal. The same seed gives the same result, and worker processes draw '
     'different resamples.',
     ['inputs', 'configurations', 'schedules'],
     'all tables, statistics, block lengths, batch sizes, alphas, methods, seeds and numbers of workers',
     'The tests look at one interval of one file; which rows were drawn, in which runs, and which percentiles were taken '
     'can only be told by observing every resample handed to the statistic.',
     ['metcalcpy/bootstrap.py'], [('bootstrap_and_value', 'metcalcpy/bootstrap.py'),
                                  ('circular block indices', 'metcalcpy/bootstrap.py:_generate_distributions_cbb')],
     'runtime monitoring: a recording statistic observes every resample; trace checker and percentile oracle',
     'uniformity is judged with a bound of eight standard deviations, so only gross bias is reported',
     observe=['arrays handed to the statistic function'])
prop('C11', 'Event equalization keeps exactly the rows whose event every series has',
     'A row survives equalization if and only if its event (valid time and lead, plus the value of the independent variable '
     'when asked) is present for every combination of the requested series values and fixed values, including grouped, '
     'numeric and missing values, and with two axes for the series of both (times and leads are part of the event and never '
     'required of a series); surviving rows are unaltered, are not repeated and '
     'keep their order, and equalizing again removes nothing. Equalization against a list of earlier events keeps exactly '
     'the rows with a listed event.',
     ['inputs', 'configurations'], 'all tables with any pattern of absent rows, any series and fixed variables',
     'The tests count the surviving rows of two files; which rows must survive depends on every pattern of absent rows.',
     ['metcalcpy/event_equalize.py', 'metcalcpy/event_equalize_against_values.py', U + 'utils.py',
      'metcalcpy/agg_stat_event_equalize.py', 'metcalcpy/agg_stat_eqz.py'],
     [('event_equalize', 'metcalcpy/event_equalize.py'), ('perform_event_equalization', U + 'utils.py')],
     T_REF + ' (set intersection)', 'the statistic names of one variable share their events, as in real files')
prop('C12', 'The aggregation program reports every requested statistic of exactly its rows',
     'For every combination of series values, independent value and statistic asked for, the output has one row whose value '
     'is that statistic of the pooled underlying samples of exactly the input rows of that combination (grouped values pool '
     'the rows of their members; fixed values and event equalization restrict them first), and a combination without rows '
     'has a missing value; contingency tables with different expected rates are refused. The result does not depend on the order of the input rows, on rows of other series or on an earlier output file. With '
     'resampling the bounds are the alpha/2 and 1-alpha/2 percentiles of the statistic over resampled rows (in circular '
     'blocks of time unless switched off), and repeat for the same seed.',
     ['inputs', 'configurations'],
     'all inputs of the fifteen line types, series layouts, groups, fixed values, seeds and alphas',
     'The tests run a handful of files and look at single numbers; that the right rows reach the right formula with the right '
     'weights depends on the line type, the statistic and the layout together.',
     ['metcalcpy/agg_stat.py', U + 'utils.py', 'metcalcpy/bootstrap.py'],
     [('AggStat.calculate_stats_and_ci', 'metcalcpy/agg_stat.py'), ('_prepare_*_data', 'metcalcpy/agg_stat.py')],
     T_REF + ' at the file level, metamorphic relations on the interval',
     'probability rows are given with their columns in the order the aggregation software writes them')
prop('C13', 'Derived series are the stated operation on the two component series',
     'A derived series has one row per independent value, labelled with the operation and its two components, whose value is '
     'the difference, ratio (first over second), skill score (difference over the first) or first value of the two component '
     'statistics, taken over models, regions, statistics or groups; it is missing when a component is missing or the '
     'denominator is zero, and with resampling its bounds are the percentiles over resamples that draw both components '
     'together. The significance of a difference is the share of centred resamples no further from zero than the difference, '
     'negative exactly when the first series is further from the best score than the second, and missing for statistics '
     'without a best score. Series that repeat a case are refused instead of being paired at random.',
     ['inputs', 'configurations'], 'all pairs of series over nine line types, operations and numbers of resamples',
     'The tests check a difference of one statistic; operand order, zero denominators, pairing and sign depend on the data.',
     ['metcalcpy/agg_stat.py', U + 'utils.py'],
     [('AggStat._calc_stats_derived / get_derived_series', 'metcalcpy/agg_stat.py'),
      ('calc_derived_curve_value, perfect_score_adjustment, get_derived_curve_name', U + 'utils.py')],
     T_REF, 'the equivalence test as a derived series is not claimed: it always ends the run')
prop('C14', 'Row summaries and pooled field values are the statistics of exactly those rows',
     'The row-summary program gives every row the value of its named statistic computed from that row alone, keeps the other '
     'columns and, without pooled values, every row in its order whatever the series and independent values are, and with event equalization writes exactly the equalized rows. Pooling the rows of several values '
     '("A;B") of a field leaves one row per valid time and lead whose sums, and hence every statistic, are those of the pooled '
     'samples, leaves other rows alone, and skips times without rows; the row-summary program (per variable and statistic) and '
     'the aggregation program give the same numbers for a pooled series or independent value.',
     ['inputs', 'configurations'], 'all tables of ten line types, pooled values, absent rows and statistics',
     'No test runs the row-summary program; the pooling test only looks for warnings.',
     ['metcalcpy/sum_stat.py', U + 'utils.py', 'metcalcpy/agg_stat.py'],
     [('SumStat.calculate_stats', 'metcalcpy/sum_stat.py'), ('aggregate_field_values, calc_series_sums', U + 'utils.py')],
     T_REF + ' at the file level', 'pooling together with event equalization in the row-summary program is not claimed (see DESIGN)')
prop('C15', 'The object program reports each ratio of exactly the objects of its point',
     'For every combination of series values, independent value and object ratio asked for, the object program writes one row '
     'whose value is that ratio over exactly the objects of that combination and variable (grouped values pool their members, '
     'several statistics and two axes do not disturb each other, earlier events restrict the objects first), with the number '
     'of objects used, and a missing value without a denominator. With resampling the bounds are the alpha/2 and 1-alpha/2 '
     'percentiles of the ratio over resampled cases and repeat for the same seed; the input file stays unchanged.',
     ['inputs', 'configurations'], 'all object tables, ratios of counts, areas and volumes, series layouts, seeds and alphas',
     'No test runs the object program; which row a value lands in depends on the layout.',
     ['metcalcpy/agg_stat_bootstrap.py', 'metcalcpy/bootstrap.py'],
     [('AggStatBootstrap.calculate_values', 'metcalcpy/agg_stat_bootstrap.py')],
     T_REF + ' at the file level, exact distribution over all resamples for the interval',
     'how often a case drawn twice counts in a resample is not claimed')
prop('C16', 'Scorecard cells are the mean, difference or significance of their own series',
     'Each scorecard cell is, over exactly the rows of its region, lead, level and statistic, the mean of one series, the mean of '
     'the paired differences of two series, or the significance of that difference, where the sign says which series is better '
     'for that statistic and both significance conventions scale with the paired t value. Cells are labelled with their series '
     'and operation, a region without rows has no cell, and series that repeat a case are refused.',
     ['inputs', 'configurations'], 'all tables of paired daily series, statistics with and without a best score, both conventions',
     'The test compares one file of stored output; the sign and pairing depend on the statistic and on the data.',
     ['metcalcpy/scorecard.py', U + 'utils.py'],
     [('Scorecard.calculate_scorecard_data', 'metcalcpy/scorecard.py'), ('perfect_score_adjustment', U + 'utils.py')],
     T_REF + ' at the file level', 'cases of the two series coincide (as after equalization) and their differences are not constant')
prop('C17', 'Standard errors and serial statistics follow the valid values of a series',
     'The standard error of the mean, the sum or the median of a series is that of its valid values, widened by the '
     'autocorrelation factor exactly when the lag-one least-squares coefficient is at least 0.3 and below 0.99, and does not '
     'depend on units or on where missing values stand. The autocovariances, the autocorrelations and the runs test (one- and '
     'two-sided, around median or mean) equal their textbook definitions over valid pairs, are missing for constant series, and '
     'the revision statistics are those of the revisions joined without pairing across them.',
     ['inputs'], 'all series with ties, trends, missing values, any scale, any lag',
     'Each function has one stored number in the tests; ties, short, constant and gappy series are not touched.',
     [U + 'utils.py', U + 'correlation.py', U + 'wald_wolfowitz_runs_test.py'],
     [('compute_std_err_from_*, autocor_coef, calculate_mtd_revision_stats', U + 'utils.py'), ('acf', U + 'correlation.py'),
      ('runs_test', U + 'wald_wolfowitz_runs_test.py')],
     T_REF, 'the returned length is not judged for series with missing values')
prop('C18', 'Correlations report interval, p-value and power of the same complete pairs',
     'The Pearson, Spearman, Kendall, biweight, percentage-bend and outlier-free rank correlation of two samples equal their '
     'definitions over the complete pairs, and the number of pairs, the explained and adjusted variance, the p-value (halved when '
     'one-sided), the 95 percent interval, the power and, for Pearson, the Bayes factor follow from that coefficient. Without '
     'spread the result is missing instead of an error.',
     ['inputs', 'configurations'], 'all paired samples with ties, outliers, missing values, any scale; six methods, both tails',
     'The tests use one correlation of twelve pairs.',
     [U + 'correlation.py'], [('corr', U + 'correlation.py')],
     T_REF, 'the one-sided Bayes factor is not claimed; outliers are judged only when resampling cannot change them')
prop('C19', 'The equivalence test reports both one-sided tests and the matching verdict',
     'For two paired groups the equivalence test reports the mean difference, the two one-sided t and p values against the '
     'bounds in units of the standard deviation of the differences, both confidence intervals, and verdicts that are significant '
     'exactly when the corresponding p-value is below the level, however small it is. Exchanging the groups and mirroring the '
     'bounds mirrors every number and keeps the verdict. Two series of paired values are compared with their own means, spreads and '
     'correlation and bounds of a thousandth.',
     ['inputs', 'configurations'], 'all group sizes, means, spreads, correlations, bounds and levels',
     'One stored example is tested; three of the four verdicts and extreme p-values are not.',
     [U + 'utils.py', U + 'tost_paired.py'], [('tost_paired, calc_derived_curve_value (ETB)', U + 'utils.py'), ('tost_paired', U + 'tost_paired.py')],
     T_REF + ', metamorphic (mirror)', 'p-values at the level to six digits are undecided')
prop('C20', 'Heights of pressure levels and interpolation to heights follow each column',
     'The height of a pressure level is the hypsometric height over its own column: surface height plus the moist layer thicknesses '
     'above the surface pressure, missing for levels below ground. A field interpolated to height levels is linear between the two '
     'surfaces that enclose the level, exact on a surface, constant beyond the top and below the lowest surface, missing below '
     'terrain, in any dimension order and with units converted. The program writes the same numbers with units, attributes and the times asked for.',
     ['inputs', 'configurations'], 'all columns with terrain, dimension orders, units of heights, pressures and levels',
     'No test covers the module; the uppermost layer, coincident levels and units are data dependent.',
     ['metcalcpy/vertical_interp.py'], [('vertical_interp, height_from_pressure', 'metcalcpy/vertical_interp.py')],
     T_REF + ', program runs on files', 'levels are given from the ground up; the definition of humidity may be either of the usual two')
prop('C21', 'Zonal and meridional means and zonal waves equal their definitions',
     'The zonal mean is the mean of the valid values along longitude and the meridional mean the cosine weighted mean of the valid '
     'values between the given latitudes, for either latitude order; unusable limits are refused. The coefficients, amplitude, '
     'phase, covariance and contribution of every zonal wave equal the discrete Fourier definition for an even or odd number of '
     'longitudes, any selection of waves and both transform packages, and all waves together restore the field and its variance; a circle with a missing value has no waves.',
     ['inputs', 'configurations'], 'all fields, numbers of longitudes, selections of waves, latitude bands',
     'No test covers the wave functions; one mean is tested.',
     ['metcalcpy/pre_processing/directional_means.py', 'metcalcpy/pre_processing/waves.py'],
     [('zonal_mean, meridional_mean', 'metcalcpy/pre_processing/directional_means.py'),
      ('fft_coefs, zonal_wave_*', 'metcalcpy/pre_processing/waves.py')],
     T_REF + ', metamorphic (completeness, Parseval)', 'phases of waves without amplitude are undecided')
prop('C22', 'The difficulty index combines spread, threshold and envelope as defined',
     'The difficulty index at every point is half the envelope of the ensemble mean times the relative spread (scaled by the larger of '
     'its maximum and the reference) plus one minus the distance of the share of members below the threshold from one half; the '
     'inputs are not changed and negative or zero spreads or unfitting shapes are refused. The envelope is linear between its knots '
     'and has the given values outside; unsorted or unequal numbers of knots are refused.',
     ['inputs'], 'all ensembles, thresholds, envelopes, references',
     'The test compares one stored array.',
     ['metcalcpy/calc_difficulty_index.py', 'metcalcpy/piecewise_linear.py'],
     [('forecast_difficulty', 'metcalcpy/calc_difficulty_index.py'), ('PiecewiseLinear', 'metcalcpy/piecewise_linear.py')],
     T_REF, 'ensemble means are positive')
prop('C23', 'Image comparison finds changes where they are; file selection follows dates',
     'Two images have similarity one exactly when their grey values agree, in either order, and the difference, threshold and marked '
     'images, saved or shown, have a change at its place and nowhere else; a missing image is refused. A validation run selects '
     'exactly the XML files changed between the first and last day, in order, refuses a reversed period, and cleaning removes only '
     'previous results. It has each plot drawn again under new names, removes the results when both images agree or are both absent '
     'and keeps them with a threshold image otherwise.',
     ['inputs', 'configurations'], 'all plot-like images of equal size, changed patches, pixels and shifts; file trees and dates',
     'The only test opens two stored images; nothing tests the selection of files.',
     ['metcalcpy/compare_images.py', 'metcalcpy/validate_mv_python.py'],
     [('CompareImages', 'metcalcpy/compare_images.py'), ('get_test_xml, get_testing_period, replace_name, clean', 'metcalcpy/validate_mv_python.py')],
     T_REF, 'differences of colour at equal grey value are not claimed; the drawing program is replaced by a stand-in')
prop('C24', 'Environment variables in a configuration are replaced and nothing else is',
     'Reading a configuration replaces every variable reference in tagged or unquoted values by the value of that environment variable, or by its '
     'name when it is unset, wherever and however often it occurs, and leaves all other values, the environment and the reading of '
     'other documents alone. A missing source or a document that would run code is refused.',
     ['inputs', 'histories'], 'all documents with tagged and plain values, repeated, adjacent and unset variables',
     'The tests read one document in which every variable occurs once.',
     [U + 'read_env_vars_in_config.py'], [('parse_config', U + 'read_env_vars_in_config.py')],
     T_REF, 'variable names are word characters')
prop('C25', 'Shared helpers: longitudes, combinations, column sums, rounding, names, winds',
     'Longitudes are moved to the requested range, sorted, each still the same meridian, with the order of the originals; the '
     'combinations of lists are complete, without repetition and in the documented order; column sums, counts and selections use '
     'exactly the valid values of the named column, missing when there is none. Rounding goes to the nearest and ties up, number '
     'texts and derived series names are recognised, tables are sorted by time and lead without loss, and wind speed and direction '
     'belong to the same vector.',
     ['inputs'], 'all longitudes, lists, tables with missing values, numbers and texts',
     'Each helper has one or two examples in the tests.',
     [U + 'utils.py', U + 'met_stats.py'],
     [('convert_lon_360_to_180, convert_lons_indices, create_permutations(_mv), column_data_by_name, …', U + 'utils.py'),
      ('calc_speed, calc_direction', U + 'met_stats.py')],
     T_REF, 'range starts above zero and filters on absent columns are not claimed')
prop('C26', 'Radial and tangential wind are the rotated wind of each cyclone grid point',
     'For every range, azimuth, pressure and track point the radial and tangential wind are the projections of the wind there on the '
     'unit vectors at that azimuth (counted from north, ninety degrees added), so the speed is kept and missing winds stay missing at '
     'their place. This holds for any order of the dimensions in the file, any field names, and in the file the program writes, '
     'which keeps the other fields.',
     ['inputs', 'configurations'], 'all grids, dimension orders, numbers of azimuths, missing winds',
     'No test covers the module.',
     ['metcalcpy/process_tcrmw.py'], [('read_tcrmw, compute_wind_components', 'metcalcpy/process_tcrmw.py')],
     T_REF + ', program runs on files', 'single precision angles: relative error of 1e-5 is accepted')
CO = 'metcalcpy/contributed/'
prop('C27', 'Space-time spectra and equatorial wave filter act on the right waves',
     'Every entry of a cross spectrum belongs to the frequency and eastward wave number of its axes, is the average over exactly the '
     'complete segments with the requested overlap, and coherence, phase and written files follow from the same averages; the symmetric '
     'and anti-symmetric parts stay at their latitudes. The wave filter returns exactly the waves inside the period, wave number and '
     'dispersion limits, all waves for limits that include everything, at the size of the input. Flipping longitudes moves each value '
     'with its meridian, smoothing keeps sums and treats runs between missing values apart, and inputs stay unchanged.',
     ['inputs', 'configurations'], 'all field sizes (odd and even), segment lengths and overlaps, wave kinds and limits',
     'No test covers the module; a shift by one wave number or frequency looks plausible.',
     [CO + 'spacetime/spacetime.py', CO + 'spacetime/spacetime_utils.py', CO + 'spacetime/cross_spectra.py', CO + 'tropical_diagnostics/utils.py'],
     [('mjo_cross, get_symmasymm, smooth121_1D, kf_filter', CO + 'spacetime/spacetime.py'), ('lonFlip, save_Spectra', CO + 'spacetime/spacetime_utils.py')],
     T_REF + ', program runs on files', 'limits within rounding of a resolved frequency are not decided; probability levels are not claimed')
prop('C28', 'Dispersion curves of equatorial waves solve the dispersion relation',
     'Each curve gives, for every wave number of the requested axis and on its own side of zero only, the frequency in cycles per day '
     'that solves the dispersion relation of its mode, order, equivalent depth and latitude; tables hold one curve per mode and order '
     'under its name for each depth asked for.',
     ['inputs'], 'all depths, latitudes up to 30 degrees, orders 1 to 4, numbers of wave numbers',
     'No test covers the module.',
     [CO + 'spacetime/matsuno_plot.py'], [('kelvin_mode … wig_n, matsuno_modes_wk', CO + 'spacetime/matsuno_plot.py')],
     T_REF, 'relative error of 1e-6; wave number zero is not claimed')
prop('C29', 'MJO indices are the coefficients of the filtered anomalies on the patterns',
     'The two-component indices are, day by day, the least-squares coefficients of the prepared fields on the two patterns (of that day '
     'of the year where patterns depend on it), scaled as documented; data on another grid is refused. The preparation removes the mean '
     'of the day and the 120 days before it, or keeps exactly the periods and eastward wave numbers within the limits of the detrended, '
     'tapered series, for any number of times and longitudes. Inputs stay unchanged.',
     ['inputs'], 'all series lengths (odd and even), time spacings, limits and grids',
     'No test covers the module; the defects found here change values by a few percent.',
     [CO + 'rmm_omi/compute_mjo_indices.py'], [('rmm, omi, bandpass_filter_3D, perform_3dim_spectral_filtering, rem_120day_mean', CO + 'rmm_omi/compute_mjo_indices.py')],
     T_REF, 'limits within rounding of a resolved frequency are not decided')
prop('C30', 'Wave activity, skill and patterns follow from anomalies and patterns',
     'Wave activity is the length of the vector of projections of the anomalies on the patterns of the wave (of the month where patterns '
     'are monthly) at the points of both grids, anomalies being from the mean of the same calendar day when days repeat and from the time '
     'mean otherwise; it is missing when a point is. Skill is the correlation with the first line at each forecast hour for any number of lines and hours. Patterns, '
     'their series and explained variances are the principal components along the chosen dimension, and inputs stay unchanged.',
     ['inputs', 'configurations'], 'all grids, periods, pattern files, numbers of lines, dimensions',
     'No test covers the module, which cannot be imported without a figure exporter.',
     [CO + 'tropical_diagnostics/ccew_activity.py'], [('waveact, rem_seas_cyc, waveproj, wave_skill, eof_comp', CO + 'tropical_diagnostics/ccew_activity.py')],
     T_REF, 'the figure exporter is replaced by a stand-in; figures are not claimed; centred data')
prop('C31', 'Weather regimes: anomalies, patterns, labels, counts and files',
     'Anomalies have the mean and linear trend over the seasons removed and the weight of their latitude; patterns, series and explained '
     'variances are the principal components and rebuild the data from as many patterns as asked for. Regimes are numbered by falling '
     'frequency, their patterns are the means of their days, window counts count them, matching renumbers patterns, frequencies and labels '
     'alike, and the distance that selects the number of clusters is measured from the chord of the curve. Input files, regime files and '
     'matched pairs hold each value at its day and point, missing where it is missing.',
     ['inputs', 'configurations'], 'all grids, numbers of seasons and days, regimes, missing files and points',
     'No test covers the module.',
     [CO + 'blocking_weather_regime/WeatherRegime.py', CO + 'blocking_weather_regime/Blocking_WeatherRegime_util.py'],
     [('WeatherRegimeCalculation', CO + 'blocking_weather_regime/WeatherRegime.py'),
      ('read_nc_met, write_mpr_file, reorder_fcst_regimes', CO + 'blocking_weather_regime/Blocking_WeatherRegime_util.py')],
     T_REF + ', files read back', 'regimes far apart, where the clustering has one answer')
prop('C32', 'Blocking: central latitudes, reversals, groups and lasting blocks',
     'The central latitude is where the weighted deviation is largest, smoothed around the circle; a longitude is blocked when at one of '
     'the configured offsets the mean height north of it exceeds that south of it. Groups join blocked longitudes around the whole circle '
     'up to the configured distance and need the configured number of longitudes. Blocks are the groups that last at least five days with '
     'the configured overlap and travel, no more and no less.',
     ['inputs', 'configurations'], 'all sequences of groups that do not touch, around the circle, with one-day gaps and drift',
     'No test covers the module.',
     [CO + 'blocking_weather_regime/Blocking.py'], [('BlockingCalculation', CO + 'blocking_weather_regime/Blocking.py')],
     T_REF, 'grid of one degree; drifting blocks across longitude zero are not claimed')
prop('C33', 'MJO wind power, stress and the monthly indices of its relation to El Nino',
     'Wind power is the work of both stress components on the currents times one even structure in latitude, a normalised Gaussian of the '
     'equatorial radius; the stress of the oscillation is the sum over four patterns of the band-passed stress projected on each, missing '
     'where the stress is. The monthly indices are the minima of the combined standardised components over the day and the ninety days '
     'before the first of each month, standardised.',
     ['inputs'], 'all fields, grids symmetric about the equator, start dates',
     'No test covers the module.',
     [CO + 'mjo_enso/compute_mjo_enso.py'], [('calc_wpower_MJO, calc_tau_MJO, make_maki', CO + 'mjo_enso/compute_mjo_enso.py')],
     T_REF, 'daily series whose ninety-first day is the first of a month')
prop('C34', 'Batch programs: the same files in give the same tables out, or an error',
     'Each batch program started with a parameter file writes exactly the table that its class computes, the same whether run again in the '
     'same process or a new one, replacing an existing table or, when asked, adding its rows without a second header. It changes neither the '
     'data nor the parameter file, writes nothing else, and marks missing values as NA. Without parameters, with a missing file or a missing '
     'required setting it fails with an error and writes no table, and the image comparison reports identical images as such and others as '
     'different.',
     ['inputs', 'configurations'], 'all seven programs over generated tables and settings',
     'The tests call the classes with prepared parameters and never the programs.',
     ['metcalcpy/agg_stat.py', 'metcalcpy/agg_eclv.py', 'metcalcpy/agg_stat_bootstrap.py', 'metcalcpy/agg_stat_event_equalize.py', 'metcalcpy/agg_stat_eqz.py',
      'metcalcpy/sum_stat.py', 'metcalcpy/scorecard.py', 'metcalcpy/compare_images.py'],
     [('main section', 'metcalcpy/agg_stat.py'), ('main section', 'metcalcpy/agg_eclv.py'), ('main section', 'metcalcpy/scorecard.py')],
     'runtime monitoring: file-system and process observation around each program run, differential against the class', 'files of a few dozen rows')
