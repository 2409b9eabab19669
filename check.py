#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse
import json
import os
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ['PYTHONHASHSEED'] = '0'          # worker processes: the same search order on every run
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


SLOW = {'run_pimter': 12, 'run_area': 11, 'run_area_2tiles': 11, 'terrain_p2p': 10, 'qlrpfl': 9, 'area_state': 8, 'area_hist': 7, 'area_seq': 7, 'area_repeat': 6, 'lrprop_p2p': 5, 'lrprop_area': 5, 'avar': 4}


def task(a):
    kind, name, keys, tier, seed, budget = a[:6]
    from contracts import verify
    if kind in ('unit', 'support'):
        return verify.verify(name, keys, tier, seed, budget)
    if kind == 'hunt':
        return verify.hunt(name, keys, tier, seed, budget, a[6])
    from contracts import lemmas
    return lemmas.run(name, tier)


def run_tasks(tl, jobs, end_all):
    """each task in a process of its own (fresh term tables, killable); yields (task, record) as they finish"""
    todo, live = list(tl), {}
    try:
        while todo or live:
            while todo and len(live) < jobs:
                a = todo.pop(0)
                left = end_all - time.time()
                spend = max(5, min(a[5], int(left - 60)))          # the whole check keeps within its time
                p = subprocess.Popen([sys.executable, os.path.join(HERE, 'check.py'), '--task', json.dumps(list(a[:5]) + [spend] + list(a[6:]))],
                                     stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
                live[p.stdout.fileno()] = (p, a, [], time.time() + min(spend * 1.3 + 60, max(20, left)))
            ready = select.select(list(live), [], [], 5)[0]
            for p, a, _, end in live.values():
                if time.time() > end:                     # beyond its own time limit: ended, recorded as such
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
            for fd in ready:
                p, a, buf, _ = live[fd]
                x = os.read(fd, 1 << 20)
                if x:
                    buf.append(x)
                    continue
                del live[fd]
                p.wait()
                try:
                    r = json.loads(b''.join(buf))
                except ValueError:
                    r = {'unit': a[1], 'obligations': [{'name': a[1], 'status': 'undischarged', 'tier': 'process ended'}],
                         'functions': [], 'contracts': [], 'loops': [], 'notes': ['the process of this unit ended (%s)' % p.returncode],
                         'violations': [], 'bounded': [{'obligation': 'all', 'why': 'process ended', 'bound': '0'}],
                         'replayed': 0, 'agreed': 0, 'skipped': 0, 'ended': True}
                yield a, r
    finally:
        for p, *_ in live.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    from contracts import props
    P = props.PROPS[o.property]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = 300 if o.tier == 'quick' else 1500
    t0 = time.time()
    end_all = t0 + (780 if o.tier == 'quick' else 6000)

    def unit(kind, x):
        return (kind, x if isinstance(x, str) else x[0], None if isinstance(x, str) else tuple(x[1]), o.tier, seed, budget)
    tasks = [unit('unit', x) for x in P.units] + [unit('support', x) for x in P.support]
    tasks += [('lemma', x, None, o.tier, seed, budget) for x in P.lemmas]
    recs = []
    # the longest units first
    order = sorted(tasks, key=lambda a: -SLOW.get(a[1], 0))

    def gather(tl):
        got = {}
        for a, r in run_tasks(tl, o.jobs, end_all):
            r['role'] = a[0]
            got[a] = r
            if r['violations'] and r['role'] in ('unit', 'hunt'):
                break                 # decided: the remaining work is stopped
        recs.extend(got[a] for a in tl if a in got)
        return any(r['violations'] and r['role'] in ('unit', 'hunt') for r in recs)
    decided = gather(order)
    if not decided:
        # callees taken by contract: their contracts are checked in the same run
        more = {x for r in recs for x in r.get('assumed', ())} - {a[1] for a in tasks if a[2] is None}
        decided = bool(more) and gather([unit('support', x) for x in sorted(more)])
    if not decided:
        weak = [r['unit'] for r in recs if (r['role'] != 'unit' or r.get('ended')) and any(x['status'] != 'proved' for x in r['obligations'])]
        if weak:
            # the property is no longer proved through its supporting contracts: look for a failing input of the property
            fns = sorted({f for r in recs for f in r['functions'] + r['contracts']})
            gather([('hunt', t[1], t[2], o.tier, seed, 60 if o.tier == 'quick' else 300, tuple(fns)) for t in order if t[0] == 'unit'])
            for r in recs:
                if r['role'] == 'hunt':
                    r['notes'].append('supporting contracts not established: ' + ', '.join(weak))
    wall = time.time() - t0
    viol = [dict(v, rec=r['unit']) for r in recs for v in r['violations'] if r['role'] in ('unit', 'hunt')]
    obls = [x for r in recs for x in r['obligations']]
    disch = [x for x in obls if x['status'] == 'proved']
    from contracts.units import UNITS
    broken = [r for r in recs if not r['obligations'] and r['role'] != 'hunt' and
              not (r['unit'] in UNITS and UNITS[r['unit']].native)]
    solver = sum(r.get('stats', {}).get('time', 0) for r in recs)
    ev = {
        'property': o.property, 'tier': o.tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(obls), 'discharged': len(disch),
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (o.property, o.tier),
            'trusted_base': props.TRUSTED,
            'functions_under_contract': sorted({f for r in recs for f in r['functions']}),
            'called_through_contract': sorted({f for r in recs for f in r['contracts']}),
            'loops': sorted({x for r in recs for x in r['loops']}),
            'back_ends': {'canonical form / exact rational identities': sum(1 for x in disch if x['tier'] == 'canonical'),
                          'z3 (EUF + linear arithmetic)': sum(1 for x in disch if x['tier'] == 'L1'),
                          'case split over canonical form, exact rational identities, z3, cvc5':
                          sum(1 for x in disch if x['tier'] not in ('canonical', 'L1'))},
            'solver_queries': sum(r.get('stats', {}).get('queries', 0) for r in recs),
            'solver_seconds': round(solver, 2),
            'obligation_list': obls,
            'bounded_stand_ins': [dict(b, unit=r['unit']) for r in recs for b in r['bounded']],
            'native_runs': {r['unit']: {'run': r['replayed'], 'agreed': r['agreed'], 'skipped': r['skipped']} for r in recs},
            'notes': [n for r in recs for n in r['notes']],
        },
        'assumptions': props.ASSUMPTIONS + P.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', o.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if o.v:
        for r in recs:
            print(r['unit'], r.get('seconds'), 's', 'proved %d/%d' % (sum(1 for x in r['obligations'] if x['status'] == 'proved'),
                  len(r['obligations'])), 'native', r['replayed'], r['agreed'], r['skipped'], r['notes'] or '', r['bounded'] or '')
    if viol:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        real = [v for v in viol if not v.get('nofail')]
        for i, v in enumerate(real or viol):
            path = os.path.join(d, '%s-%d.json' % (o.property, i))
            v['replay_cmd'] = 'python3-vt %s/replay.py %s' % (HERE, path)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            tail = ' no-failing-input-found' if v.get('nofail') else ''
            print('# %s: %s %s' % (v['unit'], v['key'], '' if v.get('nofail') else 'got %s, expected %s' % (v['got'], v['want'])))
            print('VIOLATION property=%s replay=%s%s' % (o.property, path, tail))
        return 1
    if broken or not obls:
        print('no obligations generated for: %s' % ', '.join(r['unit'] for r in broken))
        return 3
    for f in props.known_findings(o.property):
        print('KNOWN-FINDING: property=%s %s' % (o.property, f))
    print('%s: %d obligations, %d discharged, %.1f s' % (o.property, len(obls), len(disch), wall) +
          ('' if len(obls) == len(disch) else ' (%d covered by a bounded stand-in)' % (len(obls) - len(disch))))
    return 0


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--task':
        sys.stdout.write(json.dumps(task(json.loads(sys.argv[2]))))
        sys.exit(0)
    sys.exit(main())
