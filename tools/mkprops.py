#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
S = 'src/itmlogic/'
PS = S + 'preparatory_subroutines/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})

p('C01', 'Point-to-point prediction equals the published ITM for every profile',
  'For every terrain profile, pair of antenna heights, frequency, refractivity and ground, point-to-point preparation returns the path distance, effective antenna heights, horizon distances and angles, terrain irregularity and reference attenuation that the published Irregular Terrain Model 1.2.2 defines for that path. This holds in all three regimes (line of sight, diffraction, troposcatter), for any number of profile points, and for terrain irregularity computed from the same profile.',
  ['inputs', 'configurations'], 'all profiles (1 to 1000 intervals, any spacing, flat, rough, spiky, tied), antenna heights 0.5-3000 m, 20 MHz-20 GHz, refractivity 250-400, ground constants from dry soil to sea water, both polarisations',
  'test_p2p and test_qlrpfl sample one 157-point profile, which is a double-horizon diffraction path; line-of-sight, troposcatter and short profiles are never run.',
  [PS+'qlrpfl.py', S+'lrprop.py', PS+'hzns.py', PS+'dlthx.py', PS+'zlsq1.py', S+'diffraction_attenuation/adiff.py', S+'los_attenuation/alos.py', S+'scatter_attenuation/ascat.py'],
  [('point-to-point preparation', PS+'qlrpfl.py:qlrpfl'), ('reference attenuation', S+'lrprop.py:lrprop')], ['qlrpfl return value'])
p('C02', 'Area prediction equals the published ITM for every terrain and siting',
  'For every terrain irregularity, antenna height, siting criterion, frequency, refractivity, ground and distance, area-mode preparation followed by a distance evaluation gives the effective heights, horizon distances and angles and the reference attenuation that the published Irregular Terrain Model 1.2.2 defines. The climate and variability-mode overrides given to the preparation take effect exactly when they are set.',
  ['inputs', 'configurations'], 'all siting pairs (including out-of-range codes), heights 0.5-3000 m, irregularity 0-1000 m, 20 MHz-20 GHz, distances 100 m-3000 km in every regime, override set and unset',
  'test_area runs one parameter set over a fixed distance list and test_qlra one siting; other sitings, regimes and override combinations are never executed.',
  [PS+'qlra.py', S+'lrprop.py'], [('area preparation', PS+'qlra.py:qlra'), ('reference attenuation', S+'lrprop.py:lrprop')], ['qlra and lrprop return values'])
p('C03', 'Area attenuation at a distance does not depend on the distances before it',
  'In area mode, once a system has been prepared, the reference attenuation, path distance and mode boundaries reported for a distance are the same whatever distances were evaluated before it, in whatever order, with repeats and with or without the special zero-distance call that defines every coefficient.',
  ['histories', 'inputs'], 'all sequences of distance evaluations on a prepared system, ascending, descending, shuffled, repeated, crossing regimes back and forth, with zero-distance calls interleaved',
  'test_area walks one ascending list in which only one distance is in line of sight; no test revisits a regime, repeats a distance or makes the special call.',
  [S+'lrprop.py'], [('one-off coefficient blocks kept between calls', S+'lrprop.py:lrprop')], ['lrprop return value at each step'],
  [{'name': 'wlos, wscat, mdp', 'meaning': 'which coefficients have been defined', 'where': S+'lrprop.py'}])
p('C04', 'Quantiles of attenuation equal the published statistics',
  'For every reference attenuation, path, climate code, variability mode (with the point-to-point and interference additions), and any time, location and situation deviates, the reported quantile is the one Section V of the published model defines. Deviates that a mode documents as unused have no effect, and an impossible climate or mode is replaced by the documented default and flagged.',
  ['inputs', 'configurations'], 'climates 1-7 and invalid, modes 0-3 with +10, +20, +30 and invalid, all deviates in [-5,5], distances 100 m-3000 km, 20 MHz-20 GHz, all irregularities',
  'test_avar evaluates a handful of points in one climate and mode; six of seven climates and most modes never execute.',
  [S+'statistics/avar.py', S+'statistics/curv.py'], [('quantile computation and climate tables', S+'statistics/avar.py:avar'), ('empirical curve fit', S+'statistics/curv.py:curv')], ['avar and curv return values'])
p('C05', 'Incremental recomputation of statistics equals full recomputation',
  'Whenever a caller changes the distance, effective heights, wave number, variability mode or climate and raises the recomputation level at least to the documented one, the next quantile equals the quantile of a fresh full computation, and the level is reset so that further quantile changes need no recomputation. Both preparations raise the level themselves as far as what they change requires and apply the climate and mode overrides they are given. Raising the level more than necessary never changes any result.',
  ['histories', 'inputs'], 'all sequences of parameter changes (with the documented minimum level or higher), preparations with and without overrides, distances and quantile requests on one record',
  'tests only use the full level or one distance step; sequences mixing levels are unbounded and never run.',
  [S+'statistics/avar.py', PS+'qlra.py', PS+'qlrpfl.py'], [('level-gated coefficient blocks', S+'statistics/avar.py:avar')], ['avar return value and recomputation level after each step'],
  [{'name': 'lvar', 'meaning': 'level to which coefficients must be redefined', 'where': S+'statistics/avar.py'}])
p('C06', 'Asking for more confidence or reliability never lowers the predicted loss',
  'For every system, path, climate and variability mode, the predicted attenuation never decreases when the requested confidence is raised, when the requested time reliability is raised, or when the requested fraction of locations is raised, the other two being fixed.',
  ['inputs', 'configurations'], 'all pairs of quantile requests ordered in one coordinate, percentages 0.1-99.9, all climates, modes and paths, both prediction modes end to end',
  'monotonicity relates pairs of executions; the tests compare single values to constants.',
  [S+'statistics/avar.py', S+'misc/qerfi.py'], [('quantile formula', S+'statistics/avar.py:avar'), ('percentage to deviate', S+'misc/qerfi.py:qerfi')], ['avar return values along percentage ladders'])
p('C07', 'Reference attenuation is non-negative, finite and continuous in distance',
  'The reference attenuation is never negative, and it is a finite number whenever the model reports no warning about its parameters. In area mode it is a continuous function of distance: it does not jump where line of sight gives way to diffraction or diffraction to troposcatter.',
  ['inputs', 'histories'], 'all area systems and distances, with distances placed on both sides of each regime boundary; all point-to-point paths',
  'no test looks at two neighbouring distances or at a regime boundary.',
  [S+'lrprop.py'], [('coefficients chosen so that adjacent curves meet', S+'lrprop.py:lrprop'), ('clamp at zero', S+'lrprop.py:lrprop')], ['lrprop return value'])
p('C08', 'The warning indicator follows the documented limits and only ever rises',
  'After any sequence of calculations the warning indicator equals the most severe documented condition met so far: caution near limits, defaults substituted, internal values out of range, or parameters out of range. It is never lowered by a calculation, each limit applies to the terminal or quantity it is documented for, and except for substituted defaults a warning has no effect on the computed attenuation.',
  ['inputs', 'histories'], 'all parameter values at, just inside and just outside every limit, all combinations, all starting indicator values, sequences of area distances and quantile requests',
  'tests run only parameter sets that raise no or one warning and never assert the limits one by one.',
  [S+'lrprop.py', S+'statistics/avar.py'], [('range checks', S+'lrprop.py:lrprop'), ('default substitution', S+'statistics/avar.py:avar')], ['indicator after every call'],
  [{'name': 'kwx', 'meaning': 'cumulative warning severity', 'where': S+'lrprop.py, '+S+'statistics/avar.py'}])
p('C09', 'Radio horizons are those of the terrain',
  'For every profile, earth curvature and pair of antenna heights, each terminal\'s horizon angle is the largest elevation angle of any intermediate profile point or of the other terminal as seen over the curved earth, and its horizon distance is the distance to the point attaining it. When nothing rises above the direct ray, both distances are the full path length.',
  ['inputs'], 'all profiles from 1 to 1000 intervals, obstacles at any interior point including the first and last, heights and curvatures in range',
  'test_hzns uses a single profile.',
  [PS+'hzns.py'], [('horizon scan', PS+'hzns.py:hzns')], ['hzns return values; horizon outputs of qlrpfl'])
p('C10', 'Terrain irregularity is the interdecile range of the detrended profile',
  'For every profile and interval, the terrain irregularity parameter is the interdecile range of the evenly resampled, detrended elevations, scaled to its asymptotic value, and is zero for intervals shorter than two profile steps. It is never negative, does not change when a constant or a constant slope is added to the terrain or when the path is traversed backwards, and scales with the terrain heights.',
  ['inputs'], 'all profiles, intervals aligned or not to profile points, short and long (resampling from 35 to 245 points)',
  'test_dlthx has one profile and interval.',
  [PS+'dlthx.py', PS+'zlsq1.py', S+'misc/qtile.py'], [('resampling, detrending, rank selection', PS+'dlthx.py:dlthx')], ['dlthx return value'])
p('C11', 'The terrain fit is the least-squares line over the requested interval',
  'For every profile and interval, the fitted end heights are those of the straight line obtained by a linear least-squares fit with half weight on the two end points to the profile points spanned by the interval (widened to adjacent points when it spans none). A profile that is itself a straight line is reproduced exactly.',
  ['inputs'], 'all profiles of 1 to 1000 intervals, all sub-intervals including degenerate and out-of-range ones',
  'test_zlsq1 has one interval of one profile.',
  [PS+'zlsq1.py'], [('least-squares fit', PS+'zlsq1.py:zlsq1')], ['zlsq1 return values'])
p('C12', 'Probabilities and standard normal deviates convert with stated accuracy',
  'The complementary normal probability is within 7.5e-8 of the true value for every deviate, and the inverse is within 4.5e-4 (plus its four-decimal rounding) of the true deviate for every fraction from one millionth to one minus one millionth. Both are monotone within that accuracy, symmetric about one half, saturate outside those fractions, and convert any list of fractions entry by entry in order.',
  ['inputs'], 'all deviates (including very large), all fractions in [0,1], lists of any length',
  'tests check a few values of each function.',
  [S+'misc/qerf.py', S+'misc/qerfi.py'], [('rational approximations', S+'misc/qerf.py:qerf, '+S+'misc/qerfi.py:qerfi')], ['return values'])
p('C13', 'Rank selection returns the requested order statistic and leaves data alone',
  'For every sequence and valid rank, rank selection returns the entry that would stand at that rank in descending order, counting duplicates, whatever the input order, and leaves the input unchanged.',
  ['inputs'], 'all lists, tuples and arrays of 1 to 300 numbers with ties, all ranks',
  'test_qtile has one list.',
  [S+'misc/qtile.py'], [('selection', S+'misc/qtile.py:qtile')], ['qtile return value and argument'])
p('C14', 'Predictions are reciprocal: swapping the terminals changes nothing',
  'For every path, exchanging transmitter and receiver (heights, siting, and the profile read backwards) gives the same terrain irregularity, reference attenuation, warning level and quantiles of loss, with the two terminals\' horizon and height results exchanged.',
  ['inputs', 'configurations'], 'all profiles and antenna-height pairs in point-to-point mode; all height and siting pairs and distances in area mode; all grounds and climates',
  'reciprocity relates two executions; no test runs a reversed path.',
  [PS+'qlrpfl.py', PS+'qlra.py', S+'lrprop.py', S+'scatter_attenuation/ascat.py'], [('symmetric treatment of terminals', S+'lrprop.py, '+PS+'qlrpfl.py')], ['qlrpfl, lrprop and avar results'])
p('C15', 'Predictions do not depend on the elevation datum or on number representation',
  'In point-to-point mode, adding the same constant to every terrain elevation, or giving the same elevations and heights as whole numbers instead of floating-point numbers, changes neither the path geometry nor the attenuation nor the warning level.',
  ['inputs'], 'all profiles and offsets from -10 km to +10 km, whole-number and floating-point forms of the same profile, distances and heights',
  'tests run one profile at its own datum.',
  [PS+'qlrpfl.py', PS+'hzns.py', PS+'dlthx.py', PS+'zlsq1.py'], [('height differences only', PS+'qlrpfl.py')], ['qlrpfl and itmlogic_p2p results'])
p('C16', 'Diffraction attenuation equals the published formulas',
  'For every path and distance beyond the horizons, diffraction attenuation is the published weighted combination of double knife-edge and smooth-earth attenuation plus clutter; the knife-edge function and the height-gain function equal their published piecewise definitions over every range of their arguments.',
  ['inputs'], 'all prepared paths and distances, knife-edge arguments from just above 0 to 1e9, height-gain arguments in every piece and on both sides of every breakpoint',
  'tests of the three functions use single points, so most pieces are never executed.',
  [S+'diffraction_attenuation/adiff.py', S+'diffraction_attenuation/aknfe.py', S+'diffraction_attenuation/fht.py'], [('weighted combination', S+'diffraction_attenuation/adiff.py:adiff'), ('knife edge', S+'diffraction_attenuation/aknfe.py:aknfe'), ('height gain', S+'diffraction_attenuation/fht.py:fht')], ['return values'])
p('C17', 'Line-of-sight attenuation equals the published two-ray combination',
  'For every path and distance, line-of-sight attenuation is the published weighted combination of the two-ray attenuation, with its roughness-reduced ground reflection and phase limits, and the extended diffraction attenuation.',
  ['inputs'], 'all prepared paths and distances from 1 m, all ground impedances, roughnesses and heights',
  'test_alos has one point.',
  [S+'los_attenuation/alos.py'], [('two-ray combination', S+'los_attenuation/alos.py:alos')], ['alos return value'])
p('C18', 'Troposcatter equals the published formulas, or is switched off when inadmissible',
  'For every path and distance, scatter attenuation is the published sum of the distance function, the frequency and refractivity terms and the frequency gain, each equal to its published piecewise definition. When the scatter angle is inadmissible, scatter is reported as unavailable and diffraction is used at every distance.',
  ['inputs', 'histories'], 'all prepared paths and distances, the order of calls that carries the frequency gain from one to the next, angular distances in every piece, frequency-gain parameters in every piece, inadmissible paths',
  'tests of the three functions use single points; the inadmissible case and the carried-over gain are never executed.',
  [S+'scatter_attenuation/ascat.py', S+'scatter_attenuation/h0f.py', S+'scatter_attenuation/ahd.py', S+'lrprop.py'], [('scatter attenuation', S+'scatter_attenuation/ascat.py:ascat'), ('frequency gain', S+'scatter_attenuation/h0f.py:h0f'), ('distance function', S+'scatter_attenuation/ahd.py:ahd')], ['return values; lrprop beyond the scatter boundary'])
p('C19', 'System preparation derives the radio constants the model documents',
  'For every frequency, system elevation, refractivity, polarisation and ground, preparation returns the documented wave number, surface refractivity (scaled by elevation only when one is given), effective earth curvature and surface impedance; polarisation zero is horizontal and any other value vertical. The prediction runners use the same constants for the parameters they were given.',
  ['inputs', 'configurations'], 'all frequencies 1 MHz-100 GHz, elevations -500 to 5000 m, refractivity 200-450, permittivity 1-100, conductivity 0-10 S/m, both polarisations; constants as seen after every runner',
  'test_qlrps has one parameter set; runner-set constants are asserted nowhere.',
  [PS+'qlrps.py', 'scripts/p2p.py', 'scripts/area.py', 'scripts/pimter.py'], [('preparation', PS+'qlrps.py:qlrps')], ['qlrps return values; parameters left by the runners'])
p('C20', 'Predictions are deterministic and isolated from one another',
  'A prediction depends only on the inputs it is given: it is bit-for-bit the same when repeated, after any other predictions, when predictions for different systems are interleaved call by call, when they run concurrently in threads, in another process or environment, or when the parameter record of an earlier prediction is used again with its inputs set anew. No prediction alters the terrain profile, antenna heights, siting or quantile lists it was handed, another system\'s results, or the settings of the process (numerical error handling, random numbers, working directory, environment).',
  ['histories', 'schedules', 'inputs'], 'all interleavings of calls for several systems, all thread schedules, all process environments, sequences of systems that differ in a single parameter',
  'each test runs one system once in a fresh state.',
  ['src/itmlogic', 'scripts'], [('all state carried in the caller\'s parameter set', 'src/itmlogic')], ['results of repeated, interleaved and concurrent runs; arguments after the call'])
p('C21', 'The point-to-point runner reports the full, correctly labelled loss table',
  'For every profile and parameter set, the point-to-point runner returns one row for each reliability (1, 10, 50, 90, 99 %) and confidence (50, 90, 10 %) level, in that order, giving the path distance, the levels, and a loss equal to free-space loss plus the model\'s quantile for exactly those levels. The path type, dominant mode and free-space value it prints are those of the computed path, and the confidence levels it prints those of the table.',
  ['inputs', 'configurations'], 'all profiles (2 to 1000 points), distances, frequencies, heights, polarisations; both copies of the runner; parameter sets reused for several runs',
  'test_p2p checks its own reimplementation of the runner on one path; the runner itself is not imported.',
  ['scripts/p2p.py', 'scripts/p2p_2tiles.py'], [('runner', 'scripts/p2p.py:itmlogic_p2p')], ['returned rows, printed classification'])
p('C22', 'The area runner reports the full, correctly labelled loss table',
  'For every terrain irregularity and parameter set, the area runner returns rows for distances 10 to 150 km in steps of 10 and then 200 to 500 km in steps of 50, each with confidence 50, 90 and 10 %, giving a loss equal to free-space loss at that row\'s distance plus the model\'s quantile for exactly those levels.',
  ['inputs', 'configurations'], 'all irregularities, heights, frequencies, polarisations; both copies of the runner; parameter sets reused for several runs',
  'test_area checks its own reimplementation of the runner on one parameter set; the runner itself is not imported.',
  ['scripts/area.py', 'scripts/area_2tiles.py'], [('runner', 'scripts/area.py:itmlogic_area')], ['returned rows'])
p('C23', 'The campaign runner predicts the median loss for every height on its profile',
  'For every terrain profile and list of sample distances handed to it, the campaign runner returns one row per transmitter height from 10 to 130 m giving the campaign frequency, that height, the 50 % level and the median loss of exactly that profile, independently of previous runs.',
  ['inputs', 'histories'], 'all profiles and spacings, the recorded campaign profiles, sequences of different profiles in one process',
  'no test imports this runner.',
  ['scripts/pimter.py', 'data/pimter'], [('runner', 'scripts/pimter.py:run_itmlogic')], ['returned rows'])
p('C24', 'The sampled terrain profile runs evenly from transmitter to receiver',
  'For every straight path inside the elevation data, the sampled profile has between 2 points (for a vanishing path) and 600 (for a very long one), a number that never falls as the path lengthens, evenly spaced along the line with the first at the transmitter and the last at the receiver; each elevation is the elevation model\'s value at that point, and points, elevations and profile correspond one to one. The reported distance is the geodesic length of the path in kilometres.',
  ['inputs'], 'all elevation models (cell sizes, gradients, extents) and lines of a centimetre to 300 km in any direction; all distances for the sample count',
  'no test imports the terrain module.',
  ['scripts/terrain_module.py'], [('profile sampling', 'scripts/terrain_module.py:terrain_p2p'), ('sample count', 'scripts/terrain_module.py:determine_num_samples')], ['returned profile, distance and points'])
p('C25', 'Terrain irregularity from elevation data uses exactly the cells in range',
  'For every elevation model, site and cell range, the terrain irregularity is the interdecile range, to the nearest metre, of the elevations of the cells inside the circle of that radius, and cells outside the circle or without data have no influence. The circle\'s boundary lies at the requested geodesic distance from the site all round. The valid data of a zone are its unmasked elevations above zero, in order.',
  ['inputs'], 'all elevation models (with missing cells marked by the declared value or, where none is declared, by -9999; with outliers outside the circle), sites and radii, circles reaching beyond the model; values with ties and of both signs',
  'no test imports the terrain module.',
  ['scripts/terrain_module.py'], [('zonal statistics', 'scripts/terrain_module.py:terrain_area'), ('geodesic buffer', 'scripts/terrain_module.py:geodesic_point_buffer'), ('interdecile range', 'scripts/terrain_module.py:interdecile_range'), ('valid data', 'scripts/terrain_module.py:all_data')], ['return values'])
p('C26', 'Exported tables and shapes hold exactly the data they were given',
  'For every result table and set of point features, the exported file read back has the same rows in the same order, the same columns and the same values to full precision, coordinates and coordinate system included; the target folder is created when missing and an earlier file of that name is replaced.',
  ['inputs', 'histories'], 'all tables of numbers and text (with separators, quotes, extreme magnitudes), feature lists, missing or existing folders, repeated exports',
  'no test writes or reads a file.',
  ['scripts/p2p.py', 'scripts/area.py', 'scripts/p2p_2tiles.py', 'scripts/area_2tiles.py'], [('table export', 'scripts/p2p.py:csv_writer'), ('shape export', 'scripts/p2p.py:write_shapefile'), ('path line', 'scripts/p2p.py:straight_line_from_points')], ['files read back'])
p('C27', 'Plots show the tabulated losses under the right labels',
  'For every results table, the area plot draws one line per confidence level through exactly the tabulated distance and loss pairs, and the point-to-point plot one bar per reliability and confidence with exactly the tabulated loss, with every legend entry and axis label naming the data it is attached to and every value within the axes.',
  ['inputs'], 'all result tables in any row order, with any positive losses',
  'no test imports the plotting code.',
  ['vis/vis.py'], [('plots', 'vis/vis.py:plot_area_results, vis/vis.py:plot_p2p_results')], ['drawn artists, legend, axes, saved file'])
p('C28', 'Every prediction within the documented ranges completes with a number',
  'For all inputs within the documented ranges, every stage of a point-to-point or area prediction returns without error after a bounded amount of work, and when the model reports no warning every reported geometry value and loss is a finite real number.',
  ['inputs'], 'documented ranges: 20 MHz-20 GHz, heights 0.5-3000 m, 1-2000 km, refractivity 250-400, any ground, any terrain from -500 to 9000 m, 1 to 1000 profile intervals, all climates and modes',
  'the tests run a few benign points; crashes and endless loops hide in degenerate geometry.',
  ['src/itmlogic'], [('guards against degenerate geometry', 'src/itmlogic')], ['completion, step count and finiteness of results'])
p('C29', 'Running a shipped script produces the documented scenario\'s results',
  'Run from a directory holding only its elevation or campaign data, each shipped script completes and leaves exactly the documented output files, whose contents are the model\'s predictions for the scenario written in the script and the terrain found in that data. The campaign script predicts exactly the recorded profiles, and the plotting script draws exactly the tables it finds. Running it again replaces them with the same contents.',
  ['inputs', 'histories', 'configurations'], 'all elevation data covering the scenario, fresh or previously used output folders, any order of scripts',
  'no test runs a script.',
  ['scripts/p2p.py', 'scripts/area.py', 'scripts/p2p_2tiles.py', 'scripts/area_2tiles.py', 'scripts/pimter.py', 'scripts/terrain_module.py', 'vis/vis.py'], [('script entry points', 'scripts/*.py __main__, vis/vis.py __main__')], ['exit status, files written, standard output'])
p('C30', 'The documented coefficients describe the reported attenuation curve',
  'After every evaluation the documented secondary parameters in the record (horizon distances and bending angle, diffraction line, line-of-sight curve short of the smooth-earth horizon, scatter line and distance beyond it) have the values the published model defines for the path, the zero-distance area call defines all of them, and the curve they describe, never below zero, takes exactly the reported attenuation at the evaluated distance.',
  ['inputs', 'histories'], 'all area systems and point-to-point paths in the documented ranges, any sequence of distances with or without the zero-distance call',
  'the tests compare a few attenuations; no test reads the coefficients that the documentation lists as outputs.',
  [S+'lrprop.py', 'docs/getting-started.rst'], [('coefficients of the three regimes', S+'lrprop.py:lrprop')], ['parameter record after lrprop and qlrpfl'], ['emd, aed, ael, ak1, ak2, ems, aes, dx, dls, dlsa, dla, tha'])
p('C31', 'Importing any part works in any order and has no effects',
  'Each module of the package and each shipped script can be imported on its own, first or in any order with the others, from any directory and without its data being present. Importing runs no scenario, prints nothing, writes no file and changes no setting of the process, and predictions made afterwards are the same whatever the order was. The package as installed (its declared packages, with only NumPy besides the standard library) holds every module and predicts the same.',
  ['histories', 'inputs'], 'all orders of importing the modules of the package, the scripts and the plots in a new interpreter',
  'the tests import everything in one process in alphabetical order, so a circular import or an import-time effect stays hidden.',
  ['src/itmlogic', 'scripts', 'vis'], [('module-level statements', 'src/itmlogic, scripts, vis')], ['exceptions, standard output, files and process settings around the imports; results afterwards'])
p('C32', 'Requests for terrain data stand alone and leave the data as it was',
  'Every terrain profile and irregularity depends only on its arguments and on what the elevation file holds at that moment: whatever was requested before (from other files, from an earlier file of the same name, or without success), a request gives exactly what it gives in a fresh process. It needs only to read the elevation data, whose folder it leaves unchanged, does not keep the file open, and changes neither the line it was handed nor any setting of the process.',
  ['histories', 'schedules', 'inputs'], 'all histories of requests over several elevation files (rasters and virtual rasters), replacements of a file between requests made one after another, and failing requests; concurrent requests on unchanging files',
  'no test imports the terrain module.',
  ['scripts/terrain_module.py'], [('profile sampling', 'scripts/terrain_module.py:terrain_p2p'), ('zonal statistics', 'scripts/terrain_module.py:terrain_area')], ['results against a fresh process; digests of the folder, open files, arguments and process settings'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
