"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
I, H, C = 'inputs', 'histories', 'configurations'
S = 'src/itmlogic/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': [S + f if not f.startswith('scripts') else f for f in files],
                     'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(d)


prop('C01', 'Reference attenuation follows the three-region Longley-Rice model',
     'For every link, the reference attenuation is the Longley-Rice value: the logarithmic line-of-sight curve inside the smooth-earth '
     'horizon distance, the diffraction line beyond it and the scatter line past the crossover distance, each built from the '
     "algorithm's diffraction, two-ray and troposcatter attenuations at the algorithm's abscissas, and never negative. "
     'The value is the same function of the link in point-to-point mode (distance taken from the path) and in area mode (distance '
     'given by the query), apart from the roughness weighting the algorithm itself makes mode-dependent.',
     [I], 'all links with positive heights, horizon distances, frequency, curvature and refractivity, both modes, all distances > 0',
     'the tests compare one link per mode; the curve has about twenty branch combinations and continuous inputs',
     ['lrprop.py', 'diffraction_attenuation/adiff.py', 'diffraction_attenuation/aknfe.py', 'diffraction_attenuation/fht.py',
      'los_attenuation/alos.py', 'scatter_attenuation/ascat.py', 'scatter_attenuation/ahd.py', 'scatter_attenuation/h0f.py'],
     [('region selection, coefficient fits', 'lrprop'), ('diffraction', 'adiff'), ('two-ray', 'alos'), ('scatter', 'ascat')],
     ["lrprop(d, prop)['aref']"])
prop('C02', 'Area-mode answers do not depend on the query history',
     'After a link is prepared for area predictions, the attenuation returned for a distance is the same whatever distances were asked '
     'before it, in whatever order and number, and equals what a fresh session returns. Repeating queries or crossing back and forth '
     'between the line-of-sight and the over-the-horizon ranges changes nothing.',
     [H, I], 'all sequences of area queries at positive distances on all links',
     'coefficients are computed lazily and cached between calls; tests make one pass in increasing distance on one link',
     ['lrprop.py'], [('lazy line-of-sight and scatter coefficients', 'lrprop: wlos / wscat flags')], ["lrprop(d, prop)['aref']"],
     [('cached coefficients', 'line-of-sight and scatter coefficients with validity flags', 'lrprop.py prop dictionary')])
prop('C03', 'Attenuation is continuous across the region boundaries',
     'As distance grows, the reference attenuation has no jump where line of sight ends (the smooth-earth horizon distance) nor where '
     'scatter takes over from diffraction, in either mode.',
     [I], 'all links, both boundaries, both modes', 'continuity is a statement about limits at a link-dependent point; tests sample '
     'isolated distances', ['lrprop.py'], [('coefficients fitted to meet at the boundary', 'lrprop')], ["lrprop(d, prop)['aref']"])
prop('C04', 'Diffraction attenuation follows the algorithm',
     'For every link and distance, diffraction attenuation is the weighted mean of the double knife-edge loss and the rounded-earth loss '
     'plus clutter, with the weights, knife-edge approximation and height-gain function as the algorithm defines them. '
     'The value depends only on the link and the distance, not on earlier evaluations.',
     [I, H], 'all distances and links with positive parameters, both modes',
     'the height-gain function alone has five branches over two reals; the tests evaluate a few points',
     ['diffraction_attenuation/adiff.py', 'diffraction_attenuation/aknfe.py', 'diffraction_attenuation/fht.py'],
     [('set-up at distance zero, evaluation afterwards', 'adiff'), ('knife edge', 'aknfe'), ('height gain', 'fht')], ['adiff', 'aknfe', 'fht'])
prop('C05', 'Line-of-sight attenuation is the two-ray value blended with diffraction',
     'For every link and distance inside the horizon, line-of-sight attenuation is the algorithm\'s two-ray field (ground reflection '
     'coefficient with roughness reduction and lower bound, phase with its approximation for large arguments) blended with the extended '
     'diffraction line by the given weight.', [I], 'all distances and links', 'one point is tested; three clamps and two branches '
     'over ten reals are not', ['los_attenuation/alos.py'], [('two-ray field', 'alos')], ['alos(d, prop)'])
prop('C06', 'Troposcatter attenuation follows the algorithm, including its undefined case',
     'For every link and distance beyond the horizon, scatter attenuation is the algorithm\'s value: attenuation function, frequency '
     'gain with its interpolation and limits, and the remembered frequency gain that is used whenever a value above 15 dB was stored. '
     'When both antennas are too low for the frequency gain to exist the result is the undefined marker 1001 and the remembered value '
     'stays as it was.', [I, H], 'all distances, links and remembered values', 'the remembered value couples two evaluations; the tests '
     'evaluate one', ['scatter_attenuation/ascat.py', 'scatter_attenuation/ahd.py', 'scatter_attenuation/h0f.py'],
     [('remembered frequency gain', 'ascat: h0s'), ('attenuation function', 'ahd'), ('frequency gain', 'h0f')],
     ["ascat(d, prop)['ascat1']", "ascat(d, prop)['h0s']"])
prop('C07', 'Radio horizons are the largest elevation angles over the profile',
     'For every terrain profile, each antenna\'s horizon elevation is the largest take-off angle (earth curvature included) over the '
     'terrain samples between the ends and the direct ray to the other antenna, and its horizon distance is the distance to the first '
     'sample (seen scanning from the first antenna) that attains it. When no terrain rises above the direct ray both horizons are the '
     'direct ray and both distances are the path length.', [I], 'all profiles of every length and spacing, all antenna heights and '
     'curvatures', 'profiles have unbounded length; one 156-sample profile is tested', ['preparatory_subroutines/hzns.py'],
     [('horizon scan', 'hzns loop')], ['hzns(pfl, dist, hg, gme)'])
prop('C08', 'Terrain line fit is the least-squares line of the chosen window',
     'For every profile and every window on it, the fitted heights at the two path ends are those of the least-squares straight line '
     'through the whole samples inside the window with half weight on the two end samples. Windows without a whole interval are widened '
     'to one, and the fit always lies on existing samples.', [I], 'all profiles, all windows inside the profile (also degenerate ones)',
     'one profile and window are tested', ['preparatory_subroutines/zlsq1.py'], [('windowed fit', 'zlsq1')], ['zlsq1(z, x1, x2)'])
prop('C09', 'Terrain irregularity is the interdecile range of detrended terrain',
     'For every profile and window, terrain irregularity is the difference between the ninth and first deciles of the resampled window '
     'heights after removing their least-squares line, corrected for window length, and is never negative. It is zero for windows '
     'shorter than two samples; the decile used is the exact order statistic of the samples.', [I],
     'all profiles and windows, all samples lists and ranks', 'order statistics over unbounded lists; the tests use one profile',
     ['preparatory_subroutines/dlthx.py', 'misc/qtile.py', 'preparatory_subroutines/zlsq1.py'],
     [('resampling and detrending', 'dlthx'), ('order statistic', 'qtile')], ['dlthx(pfl, x1, x2)', 'qtile(a, ir)'])
prop('C10', 'Point-to-point preparation derives link geometry from the terrain profile',
     'For every profile, point-to-point preparation sets path length, horizons, terrain irregularity and effective antenna heights as '
     'the algorithm defines them: irregularity from the window between horizon-limited ends, effective heights from one common fit on '
     'line-of-sight paths (with horizons rescaled) and from separate fits near each end otherwise. Climate and variability mode are '
     'taken from the requested values only when valid, and the statistics are flagged for recomputation.', [I, C],
     'all profiles, antenna heights, curvatures, requested modes and climates', 'one profile is tested, on one of the two path kinds',
     ['preparatory_subroutines/qlrpfl.py', 'preparatory_subroutines/hzns.py', 'preparatory_subroutines/dlthx.py',
      'preparatory_subroutines/zlsq1.py'], [('preparation', 'qlrpfl')], ['qlrpfl(prop)'])
prop('C11', 'Area preparation derives link geometry from siting and irregularity',
     'For every siting choice, antenna height, terrain irregularity and curvature, area preparation sets effective heights, horizon '
     'distances and horizon elevations by the algorithm\'s empirical formulas, switches the link to area mode, and takes climate and '
     'variability mode from the requested values only when valid, flagging the statistics for recomputation accordingly.', [I, C],
     'all sitings (random, careful, very careful), heights, irregularities, curvatures, requested modes and climates',
     'one configuration is tested', ['preparatory_subroutines/qlra.py'], [('preparation', 'qlra')], ['qlra(kst, prop)'])
prop('C12', 'Environment preparation: wave number, refractivity, curvature, ground impedance',
     'For every frequency, elevation, refractivity, polarisation and ground constants: wave number, refractivity reduced to the system '
     'elevation, effective earth curvature and the complex surface transfer impedance for the polarisation are those of the algorithm.',
     [I], 'all frequencies > 0, elevations, refractivities, polarisations, permittivities >= 1, conductivities >= 0',
     'two parameter sets are tested', ['preparatory_subroutines/qlrps.py'], [('environment', 'qlrps')], ['qlrps'])
prop('C13', 'Warning level is the largest triggered and never decreases',
     'Every documented parameter check raises the warning level to its own severity (1 near limits, 2 default substituted, 3 outside '
     'the model, 4 results probably invalid) exactly when the parameter is outside its stated range, for both antennas and in both modes. '
     'The level returned is the maximum of the incoming level and all triggered ones, in attenuation and in statistics, so it never '
     'decreases over a session.', [I, H], 'all links, distances, deviates, incoming levels 0..4, query sequences',
     'no test looks at the warning level outside one or two sessions', ['lrprop.py', 'statistics/avar.py'],
     [('range checks', 'lrprop'), ('deviate, climate and mode checks', 'avar')], ["prop['kwx']"])
prop('C14', 'Attenuation quantile follows the algorithm for every climate and mode',
     'For every climate, variability mode (with or without the location and situation eliminations), link and set of normal deviates, '
     'the returned attenuation quantile is the algorithm\'s value, including the climate curves, the effective distance, the '
     'combination of spreads required by the mode, and the adjustment of negative values. Invalid climates are treated as climate 5 '
     'and invalid modes as single message.', [I, C], 'all climates 1..7 and invalid ones, all modes 0..3, 10..13, 20..23, 30..33 and invalid ones, all deviates',
     'tests cover two climate/mode combinations', ['statistics/avar.py', 'statistics/curv.py'], [('quantile', 'avar'), ('climate curve', 'curv')],
     ['avar(zzt, zzl, zzc, prop)'])
prop('C15', 'More confidence or reliability never costs less attenuation margin',
     'With everything else fixed, the attenuation quantile does not increase when the confidence deviate increases, in every mode; and '
     'in the modes with a separate time deviate (mobile and broadcast) it does not increase when the time deviate increases. '
     '(Deviates here grow as the exceedance fraction shrinks, so asking for more reliability means more allowed attenuation.)', [I, C],
     'all climates, modes, links, and all pairs of deviates', 'monotonicity relates infinitely many pairs of inputs',
     ['statistics/avar.py'], [('spread combination', 'avar')], ['avar(zzt, zzl, zzc, prop)'])
prop('C16', 'Stale statistics are never used',
     'When inputs of the statistics change and the matching recalculation level is requested (distance 1, antenna heights 2, '
     'frequency 3, mode 4, climate 5), the next quantile equals the one computed from scratch with the new inputs, and the request is '
     'consumed. Preparing a link requests at least the level its changes need, and never lowers a pending request.', [H, I],
     'all pairs of successive predictions with arbitrary old and new inputs, all levels', 'a two-call history with arbitrary old values; '
     'tests always start fresh', ['statistics/avar.py', 'preparatory_subroutines/qlra.py', 'preparatory_subroutines/qlrpfl.py'],
     [('recalculation level', "prop['lvar']")], ['avar', 'qlra', 'qlrpfl'])
prop('C17', 'Normal probability and its inverse are the rational approximations',
     'The complementary normal probability and its inverse are the algorithm\'s rational approximations for every argument: saturating '
     'outside +-10 standard deviations, with the two tails of a deviate summing to one, and with the inverse computed element by element, '
     'in order, for lists of every length.', [I], 'all reals; all lists of probabilities', 'a handful of values are tested',
     ['misc/qerf.py', 'misc/qerfi.py'], [('tail probability', 'qerf'), ('inverse', 'qerfi')], ['qerf', 'qerfi'])
prop('C18', 'Reciprocity: exchanging transmitter and receiver leaves attenuation unchanged',
     'For every point-to-point link, swapping the two ends (heights, effective heights, horizon distances and elevations) leaves the '
     'reference attenuation and the warning level unchanged.', [I], 'all point-to-point links', 'relates two runs on mirrored inputs; '
     'not tested at all', ['lrprop.py', 'diffraction_attenuation/adiff.py', 'los_attenuation/alos.py', 'scatter_attenuation/ascat.py'],
     [('symmetric use of the two ends', 'lrprop')], ["lrprop(0, prop)['aref']"])
prop('C19', 'Predictions leave the caller\'s inputs as they were',
     'Attenuation, statistics, horizon, irregularity, line-fit, order-statistic and inverse-normal computations never change the '
     'terrain profile, sample lists, antenna heights or other link inputs they are given, beyond the outputs they document. '
     'A point-to-point attenuation uses the path distance of the link and ignores the distance argument.', [I, H],
     'all inputs of every function listed', 'aliasing errors only show in later use of the same objects',
     ['lrprop.py', 'preparatory_subroutines/qlrpfl.py', 'preparatory_subroutines/qlra.py', 'preparatory_subroutines/dlthx.py',
      'preparatory_subroutines/hzns.py', 'preparatory_subroutines/zlsq1.py', 'misc/qtile.py', 'misc/qerfi.py', 'statistics/avar.py'],
     [('copies', 'dlthx, qtile'), ('documented outputs only', 'lrprop, qlrpfl, avar')], ['arguments after the call'])

if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        import mkprops_more
        mkprops_more.add(prop)
    except ImportError:
        pass
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
