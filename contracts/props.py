"""Properties: the units (and lemmas) that decide each of them."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Prop:
    """units: state the property itself (a failing input of one is a violation); support: contracts of callees the proof
    goes through; lemmas: over the specification functions"""
    technique = ('function contracts on the real Python source, obligations generated by symbolic execution of its AST, '
                 'discharged by canonical form, exact rational identities, z3 and cvc5')
    note = ('Every obligation is discharged for all inputs in the stated domain over the real numbers; floating-point rounding, '
            'transcendental functions (uninterpreted up to axioms) and the condition generator itself are trusted, the last '
            'cross-checked by running the real code on concrete inputs. An undischarged obligation is reported with a failing input '
            'found by replaying the real code, or falls back to a bounded stand-in that the evidence names.')

    def __init__(self, units, support=(), lemmas=(), assumptions=()):
        self.units, self.support, self.lemmas = list(units), list(support), list(lemmas)
        self.assumptions = list(assumptions)


TRUSTED = [
    'the condition generator in /verif/engine (symbolic execution of the Python AST read from /repo at every run)',
    'z3 and cvc5', 'exact rational arithmetic of Python fractions',
    'CPython semantics of the modelled subset (checked against native runs on every check)',
]
ASSUMPTIONS = [
    'floating-point arithmetic is treated as real arithmetic; decimal literals are the decimal numbers written',
    'exp, log, sin, cos, roots and the principal complex square root are uninterpreted up to their listed axioms',
    'equalities are claimed at points where every division, root and logarithm is defined',
]

LR = ['aknfe', 'fht', 'adiff', 'alos', 'ahd', 'h0f', 'ascat']
PFL = ['hzns', 'dlthx', 'zlsq1', 'qtile']
HZ = ['hz-clear', 'hz-range']
AGAIN = ['avar_again%d' % i for i in range(6)]
GEOM = ['dist', 'the0', 'the1', 'dl0', 'dl1', 'dh', 'he0', 'he1', 'mdp', 'lvar', 'mdvar', 'klim']

DEF = ['def_' + x for x in ('hzns', 'zlsq1', 'dlthx', 'qtile', 'qlrpfl', 'qlra', 'qlrps', 'avar', 'curv', 'qerf', 'qerfi', 'aknfe', 'fht',
                            'adiff', 'ahd', 'h0f', 'ascat', 'num_samples')]
GEO = ['assumed contracts on dependencies (contracts/geo.py): shapely lines are polylines with length, interpolation at a distance '
       'and coordinate transforms point by point; pyproj transforms and geodesic lengths are functions of their '
       'arguments; rasterstats gives the elevation at a point, and for an outline the pixels whose centre lies inside it']
FILES = ['assumed contracts on dependencies (contracts/geo.py): os.path.exists, os.makedirs and open act on a ghost table of files; '
         'csv.DictWriter writes the header and one line per row in field order']

PROPS = {
    'C01': Prop(LR + ['lrprop_p2p', 'lrprop_area']),
    'C02': Prop(['area_repeat', 'area_hist', 'area_state', 'area_many'], LR),
    'C03': Prop(['edges'], LR + ['lrprop_p2p', 'lrprop_area'], ['continuity']),
    'C04': Prop(['aknfe', 'fht', 'adiff']),
    'C05': Prop(['alos']),
    'C06': Prop(['ahd', 'h0f', 'ascat']),
    'C07': Prop(['hzns'], [], ['hz-clear', 'hz-range', 'hz-max']),
    'C08': Prop(['zlsq1']),
    'C09': Prop(['dlthx', 'qtile', 'zlsq1'], [], ['dlthx-nonneg']),
    'C10': Prop([('qlrpfl', GEOM), 'hzns', 'dlthx', 'zlsq1', 'qtile'], [], HZ + ['dlthx-nonneg']),
    'C11': Prop(['qlra']),
    'C12': Prop(['qlrps']),
    'C13': Prop([('lrprop_p2p', ['kwx']), ('area_seq', ['q1.kwx', 'q2.kwx', 'q3.kwx']), ('avar', ['kwx'])]),
    'C14': Prop(['avar', 'curv']),
    'C15': Prop(['avar_conf', 'avar_time'], ['avar', 'curv'],
                ['avar-spreads', 'avar-clamp-monotone', 'avar-confidence', 'avar-time']),
    'C16': Prop(AGAIN + [('qlra', ['lvar', 'mdvar', 'klim']), ('qlrpfl', ['lvar', 'mdvar', 'klim'])], ['curv']),
    'C17': Prop(['qerf', 'qerf_pair', 'qerfi']),
    'C18': Prop(['recip'], LR + ['lrprop_p2p'], ['recip']),
    'C19': Prop([('lrprop_p2p', ['kept.*', 'dist', 'mdp', 'aref']), ('lrprop_area', ['kept.*', 'dist']), ('area_hist', ['kept.*']),
                 ('qlra', ['kept.*']), ('qlrpfl', ['kept.*', 'pfl*']), ('avar', ['kept.*']), ('hzns', ['pfl*', 'hg0', 'hg1']),
                 ('dlthx', ['pfl*']), ('zlsq1', ['pfl*']), ('qtile', ['a*']), ('qerfi', ['q*'])]),
    'C20': Prop(DEF, [], ['hz-range', 'hz-clear', 'dlthx-nonneg'],
                ['preconditions of the definedness contracts are the physical ranges listed in contracts/units.py']),
    'C21': Prop(['run_p2p', 'run_p2p_2tiles'], ['qerfi', 'curv', 'avar', 'qlrpfl', 'lrprop_p2p'] + LR + PFL, HZ + ['dlthx-nonneg', 'ql-pos']),
    'C22': Prop(['run_area', 'run_area_2tiles'], ['qerfi', 'curv', 'avar', 'qlra', 'lrprop_area', 'area_hist', 'area_state'] + LR, ['qlra-pos']),
    'C23': Prop(['num_samples', 'num_pair', 'terrain_p2p', 'line'], [], [], GEO),
    'C24': Prop(['run_pimter'], ['qerfi', 'curv', 'avar', 'qlrpfl', 'lrprop_p2p'] + LR + PFL, HZ + ['dlthx-nonneg', 'ql-pos']),
    'C25': Prop(['geo_buffer', 'interdecile', 'terrain_area'], [], [], GEO),
    'C27': Prop(['shp_p2p', 'shp_p2p2'], [], [], FILES),
    'C26': Prop(['csv_p2p', 'csv_p2p2', 'csv_area', 'csv_area2'], [], [], FILES),
}


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known-findings.txt')):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.append(line.split(' ', 2)[2])
    except OSError:
        pass
    return out
