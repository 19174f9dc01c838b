#!/usr/bin/env python3
"""Run one check, or replay a violation.

  run.py C01 [--tier quick|thorough] [--seed N] [--cases N] [--jobs N]
  run.py --replay FILE
"""
import argparse
import json
import os
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from dst import build as B            # noqa: E402
from dst import harness as H          # noqa: E402
from dst import props                 # noqa: E402
from dst.core import HarnessError     # noqa: E402


def die(msg, code=2):
    print('ERROR: ' + msg, flush=True)
    sys.exit(code)


def replay(path):
    j = json.load(open(path))
    prop = props.ALL[j['property']]()
    bins = B.build(prop.builds)
    case = H.dec(j['case'])
    st, v, trace = H.fresh(prop, bins, case)
    dg = H.trace_digest(trace)
    for variant, plan, x in trace[-3:]:
        print('--- %s build: hob3l %s -> %s %d %s' % (variant, ' '.join(plan.args), x.outcome, x.code, x.msg))
        for l in x.events.decode('latin1').splitlines()[-40:]:
            print('    ' + l)
        if x.stderr:
            print('    stderr: ' + x.stderr[-500:].decode('latin1'))
    print('digest %s (%s)' % (dg, 'same as recorded' if dg == j.get('digest') else 'recorded: %s' % j.get('digest')))
    if st == 'viol':
        print('%s: %s' % (v.cls, v.text))
        if v.cls == j['class']:
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        else:
            print('a different violation than the recorded one (%s)' % j['class'])
        return 1
    print('no violation on this tree')
    return 0


def selftest(prop, bins, seed, tier):
    """the same seed gives the same execution, in other processes"""
    for i in range(3):
        case = prop.gen(H.case_rng(prop, seed, 10 ** 6 + i), 10 ** 6 + i, tier)
        d = []
        for _ in range(2):
            try:
                st, v, tr = H.fresh(prop, bins, H.dec(H.enc(case)))
            except HarnessError as e:
                die('simulator: %s' % e)
            d.append((st, v.cls if st == 'viol' else None, H.trace_digest(tr)))
        if d[0] != d[1]:
            die('the simulation is not deterministic: case %d %r' % (i, d))
    return 6


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    if a.prop not in props.ALL:
        die('unknown property %r' % a.prop)
    t0 = time.time()
    prop = props.ALL[a.prop]()
    try:
        bins = B.build(prop.builds)
    except B.BuildError as e:
        die('build: %s' % e)
    tb = time.time() - t0
    print('%s seed=%d tier=%s build %.1f s' % (prop.id, a.seed, a.tier, tb), flush=True)
    n = a.cases or prop.ncases(a.tier)
    cap = a.cap or (560 if a.tier == 'quick' else 5 * 3600)
    dets = selftest(prop, bins, a.seed, a.tier)
    res, tot = H.search(prop, bins, a.seed, a.tier, n, a.jobs, cap)
    hb = [o for o in res if o[1] == 'harness']
    ran = [o for o in res if o[1] in ('ok', 'viol')]
    skipped = [o for o in res if o[1] == 'skip']
    capped = [o for o in res if o[1] == 'cap']
    viols = [o for o in res if o[1] == 'viol']
    known = [k for k in H.known_findings() if k[0] == prop.id]
    seen_known = [o for o in viols if any(k[1] == o[2] for k in known)]
    viols = [o for o in viols if o not in seen_known]
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (k[0], k[2]))
    report = []
    seen = set()
    for o in viols:
        cls = o[2]
        if any(k[1] == cls for k in known) or cls in seen or len(report) >= 2:
            continue
        seen.add(cls)
        case = H.dec(json.loads(o[4]))
        cx = H.Cx(bins)
        try:
            g = [H.fresh(prop, bins, case) for _ in range(2)]
            if any(x[0] != 'viol' for x in g) or g[0][1].cls != g[1][1].cls or H.trace_digest(g[0][2]) != H.trace_digest(g[1][2]):
                die('violation of case %d does not reproduce: %s' % (o[0], o[3]), 3)
            if g[0][1].cls != cls:
                die('violation of case %d changes class: %s / %s' % (o[0], cls, g[0][1].cls), 3)
            sh = H.Shrinker(prop, cx, case, cls)
            case = sh.run()
            st, v, tr = H.fresh(prop, bins, case)
        except HarnessError as e:
            die('simulator: %s' % e, 3)
        finally:
            cx.close()
        if st != 'viol' or v.cls != cls:
            die('minimised case %d does not reproduce' % o[0], 3)
        path = H.write_replay(prop, case, v, tr, '%d-%d-%d' % (a.seed, o[0], len(report)), a.seed, o[0], a.tier)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay', path], stdout=subprocess.PIPE, text=True)
        if p.returncode != 1 or 'same as recorded' not in p.stdout:
            die('replay of %s in a fresh process differs:\n%s' % (path, p.stdout[-2000:]), 3)
        report.append((cls, v.text, path))
    wall = time.time() - t0
    samples = []
    for i in range(2):
        c = prop.gen(H.case_rng(prop, a.seed, i), i, a.tier)
        j = json.dumps(H.enc({k: c[k] for k in c if k not in ('files',)}))
        samples.append({'case': i, 'what': json.loads(j) if len(j) < 6000 else j[:6000],
                        'files': {f[0]: (f[2][:400].decode('latin1')) for f in c.get('files', [])[:4]}})
    hours = max(1e-9, wall / 3600.0)
    nontriv = len(tot.traces)
    ev = {'property': prop.id, 'tier': a.tier, 'seed': a.seed, 'level': prop.level, 'wall_s': round(wall, 2), 'violations': len(viols), 'known_findings_seen': len(seen_known),
          'coverage': {
              'evaluations': tot.n['runs'], 'distinct_nontrivial': nontriv,
              'rule': prop.rule + '. evaluations counts simulated executions; distinct_nontrivial counts executions with a distinct trace of '
                                  'file operations, allocation faults, schedule and end (the trace names every operation with its simulated time).',
              'samples': samples,
              'cases': {'planned': n, 'decided': len(ran), 'no_verdict_budget_or_rejected': len(skipped), 'not_started_time_cap': len(capped), 'simulator_errors': len(hb)},
              'simulated_runs_per_hour': int(tot.n['runs'] / hours), 'seeds_per_hour': int(len(ran) / hours),
              'simulated_time': {'unit': getattr(prop, 'time_unit', 'basic blocks executed by hob3l'), 'total': tot.steps, 'per_run_mean': int(tot.steps / max(1, tot.n['runs']))},
              'faults_fired': dict(tot.fired), 'runs_by_fault_kind': {k[16:]: v for k, v in tot.n.items() if k.startswith('runs_with_fault_')},
              'run_ends': dict(tot.outc), 'probes': dict(tot.probe),
              'distinct_schedules': len(tot.scheds), 'distinct_code_coverage_sets': len(tot.covs),
              'determinism_selftest_runs': dets,
              'real_code': prop.real, 'stubs': prop.stub,
              'builds': {k[5:]: v for k, v in tot.n.items() if k.startswith('runs_') and not k.startswith('runs_with')}},
          'assumptions': ['sampling: absence of violations is evidence, not proof',
                          'the in-memory disk has the semantics of a local file system behind stdio',
                          'a crash keeps every byte handed to write(2); torn last writes are modelled by cutting the remains'] + getattr(prop, 'assume', [])}
    os.makedirs(os.path.join(H.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(H.VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%d runs, %d cases decided, %d without verdict, %d capped, %d distinct traces, %.1f s' % (
        tot.n['runs'], len(ran), len(skipped), len(capped), nontriv, wall))
    print('faults: %s' % dict(tot.fired))
    print('probes: %s' % dict(tot.probe))
    if report:
        for cls, text, path in report:
            print('%s: %s' % (cls, text))
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        sys.exit(1)
    if hb:
        die('simulator failed on %d cases: %s' % (len(hb), hb[0][2]), 3)
    if len(ran) < max(1, n // 5):
        die('only %d of %d cases could be decided' % (len(ran), n), 3)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except Exception:
        # no answer, not a violation
        traceback.print_exc()
        sys.exit(3)
