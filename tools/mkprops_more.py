"""Properties of the command-line runners and the terrain module (read by mkprops.py)."""


def add(prop):
    I, H = 'inputs', 'histories'
    S = 'scripts/'
    prop('C20', 'Terrain preparation, statistics, diffraction and scatter routines never fail on a physical input',
         'On every terrain profile of two or more samples with positive spacing, and every link with positive heights, distances, '
         'frequency and curvature, these routines return a value: the horizon search, the least-squares line, the interdecile range, '
         'the order statistic, the preparation for either mode and for refractivity and ground, the diffraction and scatter '
         'attenuations with their inner functions, the normal deviate and its inverse, and the statistical attenuation. '
         'No access outside the profile, the sorted sample or a coefficient table, no division by zero and no root or '
         'logarithm of a non-positive number, for every profile length and every window inside the path.', [I],
         'all inputs in the stated domain, all profile lengths, all iterations of every loop',
         'an index slips out of range, or a divisor vanishes, only for particular lengths and geometries',
         ['preparatory_subroutines/hzns.py', 'preparatory_subroutines/zlsq1.py', 'preparatory_subroutines/dlthx.py', 'misc/qtile.py',
          'preparatory_subroutines/qlrpfl.py', 'preparatory_subroutines/qlra.py', 'preparatory_subroutines/qlrps.py',
          'statistics/avar.py', 'statistics/curv.py', 'misc/qerf.py', 'misc/qerfi.py', 'scatter_attenuation/h0f.py',
          'scatter_attenuation/ahd.py', 'scatter_attenuation/ascat.py', 'diffraction_attenuation/adiff.py',
          'diffraction_attenuation/aknfe.py', 'diffraction_attenuation/fht.py', S + 'terrain_module.py'],
         [('window and rank bounds', 'dlthx, zlsq1'), ('table lookup', 'h0f, avar')], ['each routine: a value, not an exception'])
    prop('C21', 'The point-to-point runner tabulates the predicted loss of its path',
         'For every profile, frequency, path length, pair of antenna heights and polarisation, the point-to-point runner returns one '
         'row for every combination of its reliability levels (1, 10, 50, 90, 99 %) and confidence levels (50, 90, 10 %), in that '
         'order; each row carries its own levels, the path length in km, and as propagation loss the free-space loss at that length '
         'plus the statistical attenuation the model gives at those levels for this path (time and confidence deviates taken from '
         'the row\'s levels, location fixed at the median; refractivity 314, permittivity 15, conductivity 0.005, climate 5). '
         'Both variants of the runner give the same table.', [I],
         'all profiles of two or more samples, frequencies, lengths, heights, both polarisations', 'the existing test copies the '
         'runner\'s code and checks one path; a row that uses state left by another row looks plausible',
         [S + 'p2p.py', S + 'p2p_2tiles.py'], [('table loops', 'itmlogic_p2p'), ('free-space term', 'itmlogic_p2p')],
         ['itmlogic_p2p(parameters, profile)'])
    prop('C22', 'The area runner tabulates the predicted loss over its distance grid',
         'For every frequency, pair of antenna heights, polarisation and terrain irregularity, the area runner returns one row for '
         'every distance of its grid (10 to 150 km by 10, then 200 to 500 km by 50) and every confidence level (50, 90, 10 %), in '
         'that order; each row carries its own distance and level, and as propagation loss the free-space loss plus the statistical '
         'attenuation the model gives for a fresh query at that distance (median time and location; very carefully sited antennas; '
         'refractivity 301, permittivity 15, conductivity 0.001, climate 5, broadcast mode). Both variants give the same table.', [I, H],
         'all frequencies, heights, polarisations and irregularities; the whole grid', 'rows share one session and its caches; the '
         'existing test copies the runner\'s code and checks one case', [S + 'area.py', S + 'area_2tiles.py'],
         [('distance grid and session reuse', 'itmlogic_area')], ['itmlogic_area(parameters)'])
    prop('C23', 'Terrain is sampled evenly from transmitter to receiver',
         'For every path, the terrain profile has round(600 - 1/(1e-5 d + 1/598)) samples for a geodesic length of d metres - never '
         'fewer than 2, never more than 600, and no fewer for a longer path - taken at equal steps along the line, the first at '
         'the transmitter and the last at the receiver; every returned point carries the elevation found at it, and the reported '
         'distance is the geodesic length in km. The line between two sites joins exactly their coordinates, in that order.', [I],
         'all polylines and all elevation models (elevation, length and interpolation taken as functions)', 'the number of samples '
         'and every position depend on a continuous length; no test covers the module',
         [S + 'terrain_module.py', S + 'p2p.py', S + 'p2p_2tiles.py'],
         [('sampling', 'terrain_p2p, determine_num_samples'), ('path', 'straight_line_from_points')],
         ['terrain_p2p(dem, line)', 'determine_num_samples(d)', 'straight_line_from_points(a, b)'])
    prop('C24', 'The PIMTER runner tabulates the loss for every UAV height',
         'For every measured profile with evenly spaced samples, the PIMTER runner returns 121 rows, one per UAV antenna height from '
         '10 to 130 m in steps of 1 m, in order, each with the frequency (2488 MHz), its own height, the reliability level (50 %) and the '
         'median loss the point-to-point model gives for that height and profile (ground antenna at 2.56 m, vertical polarisation), '
         'independent of the rows before it.', [I, H], 'all evenly spaced profiles; every row', 'each row reuses the link dictionary of '
         'the row before', [S + 'pimter.py'], [('height loop', 'run_itmlogic')], ['run_itmlogic(profile, distances)'])
    prop('C25', 'Cell roughness is the interdecile range of the cell\'s own terrain',
         'For every site and cell range, the cell is the geodesic disc of that radius about the site, and the terrain irregularity is '
         'the difference between the 90th and 10th percentile of the elevations of the pixels inside that disc - pixels outside it '
         'or without data never count - rounded to whole metres. For a plain list of elevations the interdecile range is the same '
         'function of the list.', [I], 'all sites, radii and elevation models; all lists of elevations', 'the mask '
         'and the projection only matter for particular rasters; no test covers the module', [S + 'terrain_module.py'],
         [('cell outline', 'geodesic_point_buffer'), ('statistic over the unmasked pixels', 'terrain_area, interdecile_range')],
         ['terrain_area(dem, lon, lat, cell_range)', 'interdecile_range(x)'])
    prop('C26', 'Result tables are written completely',
         'For every table of results, writing it creates the results folder when it is missing and leaves a file whose first line is '
         'the column names in the order of the rows\' fields and which then holds one line for every row, in order, with the row\'s '
         '(numeric) values under their columns and nothing else; an older file of that name is replaced. Rows may differ in number and in '
         'values, including none beyond the first.', [I], 'all tables of one or more rows with common columns, with or without an '
         'existing folder or file', 'no test covers the writers; a lost or repeated row depends on the number of rows and what was there before',
         [S + 'p2p.py', S + 'p2p_2tiles.py', S + 'area.py', S + 'area_2tiles.py'], [('table output', 'csv_writer')],
         ['csv_writer(data, directory, filename)'])
    prop('C27', 'Sampled points and sites are written completely as shapefiles',
         'For every list of one or more point features with common attributes (numbers and text), writing it creates the folder when it is '
         'missing and leaves a shapefile in the coordinate reference system asked for, with the attribute names in the features\' order and '
         'field types matching their values (floating-point numbers as float, text as str), and with exactly one record per feature, in order, '
         'each with that feature\'s own coordinates and attribute values; an older file of that name is replaced.', [I],
         'all lists of point features, with or without an existing folder or file',
         'no test covers the writer; a lost, repeated or altered record depends on the number of features and their values',
         [S + 'p2p.py', S + 'p2p_2tiles.py'], [('shapefile output', 'write_shapefile')],
         ['write_shapefile(data, directory, filename, crs)'])
