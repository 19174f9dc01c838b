"""Seeded search, gating, minimisation, replay files and evidence.

A case is a plain dictionary that determines one or more simulated executions
completely (input files, arguments, knobs, faults).  A property supplies

    gen(r, i, tier) -> case            seeded generation
    check(cx, case) -> Violation|None  runs the case and judges it

check() is a pure function of the case and the code under test.
"""
import base64
import collections
import copy
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time

from . import build as B
from .core import HarnessError, KNAME, Plan, Sim

VERIF = B.VERIF
ENV_VARIANTS = ('pat', 'zero', 'asan')


class Violation:
    def __init__(self, cls, text, case=None, trace=None):
        self.cls = cls          # stable class: what the minimiser must preserve
        self.text = text
        self.case = case        # narrowed case, if check() could narrow it
        self.trace = trace or []

    def key(self):
        return self.cls


class Inconclusive(Exception):
    """the case hit a step, memory or time budget: it says nothing"""


class Cx:
    """simulators of one worker and everything counted about their runs"""

    def __init__(self, bins):
        self.bins = bins
        self.sims = {}
        self.n = collections.Counter()
        self.fired = collections.Counter()
        self.err = collections.Counter()
        self.outc = collections.Counter()
        self.traces = set()
        self.scheds = set()
        self.covs = set()
        self.steps = 0
        self.probe = collections.Counter()
        self.trace_log = None

    def sim(self, variant):
        s = self.sims.get(variant)
        if s is None:
            s = self.sims[variant] = Sim(self.bins[variant])
        return s

    def run(self, plan, variant='pat'):
        try:
            x = self.sim(variant).run(plan)
        except HarnessError:
            self.sims.pop(variant, None)
            raise
        self.n['runs'] += 1
        self.n['runs_' + variant] += 1
        self.steps += x.steps
        self.outc[x.outcome] += 1
        for i, c in enumerate(x.h['fired']):
            if c:
                self.fired[KNAME[i]] += c
                self.n['runs_with_fault_' + KNAME[i]] += 1
        if x.h['shorts_r']:
            self.fired['short read'] += x.h['shorts_r']
        if x.h['shorts_w']:
            self.fired['short write'] += x.h['shorts_w']
        if x.h['moved']:
            self.fired['block moved by realloc'] += x.h['moved']
        if x.h['nswitch']:
            self.fired['worker switch'] += x.h['nswitch']
            self.scheds.add(x.h['sched'])
        if x.outcome == 'crash':
            self.fired['crash'] += 1
        self.covs.add(x.h['cov'])
        self.n['newedges_' + variant] += x.h['newedges']
        self.traces.add(hashlib.sha1(x.events).digest()[:8])
        if self.trace_log is not None:
            self.trace_log.append((variant, plan, x))
        return x

    def stats(self):
        return dict(n=dict(self.n), fired=dict(self.fired), outc=dict(self.outc), traces=self.traces,
                    scheds=self.scheds, covs=self.covs, steps=self.steps, probe=dict(self.probe))

    def close(self):
        for s in self.sims.values():
            s.close()
        self.sims = {}


# ---------------------------------------------------------------- JSON

def enc(o):
    if isinstance(o, bytes):
        try:
            t = o.decode('ascii')
            if all(c in '\n\t' or ' ' <= c <= '~' for c in t):
                return {'$t': t}
        except UnicodeDecodeError:
            pass
        return {'$b': base64.b64encode(o).decode()}
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    return o


def dec(o):
    if isinstance(o, dict):
        if '$t' in o:
            return o['$t'].encode()
        if '$b' in o:
            return base64.b64decode(o['$b'])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(v) for v in o]
    return o


# ---------------------------------------------------------------- search

_cx = None
_prop = None


def _winit(prop, bins):
    global _cx, _prop
    _prop, _cx = prop, Cx(bins)


def case_rng(prop, seed, i):
    return random.Random('%s/%d/%d' % (prop.id, seed, i))


def run_case(prop, cx, case):
    """-> ('ok'|'skip'|'viol', Violation or reason)"""
    try:
        v = prop.check(cx, case)
    except Inconclusive as e:
        return 'skip', str(e)
    if v is None:
        return 'ok', None
    return 'viol', v


def _work(a):
    seed, tier, lo, hi, deadline = a
    out = []
    for i in range(lo, hi):
        if time.time() > deadline:
            out.append((i, 'cap', None, None, None))
            continue
        case = _prop.gen(case_rng(_prop, seed, i), i, tier)
        try:
            st, v = run_case(_prop, _cx, case)
        except HarnessError as e:
            _cx.close()
            try:
                st, v = run_case(_prop, _cx, case)
            except HarnessError as e2:
                out.append((i, 'harness', str(e2), None, None))
                continue
        if st == 'viol':
            c = v.case if v.case is not None else case
            out.append((i, 'viol', v.cls, v.text, json.dumps(enc(c))))
        else:
            out.append((i, st, v, None, None))
    st = _cx.stats()
    # hand over and reset counters, keep the simulators
    sims = _cx.sims
    _cx.__init__(_cx.bins)
    _cx.sims = sims
    return out, st


class Totals:
    def __init__(self):
        self.n = collections.Counter()
        self.fired = collections.Counter()
        self.outc = collections.Counter()
        self.probe = collections.Counter()
        self.traces, self.scheds, self.covs = set(), set(), set()
        self.steps = 0

    def add(self, s):
        self.n.update(s['n'])
        self.fired.update(s['fired'])
        self.outc.update(s['outc'])
        self.probe.update(s['probe'])
        self.traces |= s['traces']
        self.scheds |= s['scheds']
        self.covs |= s['covs']
        self.steps += s['steps']


def search(prop, bins, seed, tier, ncases, jobs, cap, stop_after=4):
    tot = Totals()
    res = []
    deadline = time.time() + cap
    chunk = max(1, min(prop.chunk, ncases // (jobs * 4) or 1))
    tasks = [(seed, tier, lo, min(ncases, lo + chunk), deadline) for lo in range(0, ncases, chunk)]
    ctx = mp.get_context('fork')
    viols = 0
    known = {k[1] for k in known_findings() if k[0] == prop.id}
    with ctx.Pool(jobs, _winit, (prop, bins)) as pool:
        for out, st in pool.imap_unordered(_work, tasks):
            tot.add(st)
            res += out
            viols += sum(1 for o in out if o[1] == 'viol' and o[2] not in known)
            if viols >= stop_after:
                pool.terminate()
                break
    res.sort(key=lambda o: o[0])
    return res, tot


# ---------------------------------------------------------------- minimise

class Shrinker:
    def __init__(self, prop, cx, case, cls, budget_s=60, budget_n=600):
        self.prop, self.cx, self.case, self.cls = prop, cx, case, cls
        self.t = time.time() + budget_s
        self.left = budget_n
        self.tried = 0

    def ok(self, c):
        if self.left <= 0 or time.time() > self.t:
            return False
        self.left -= 1
        self.tried += 1
        try:
            st, v = run_case(self.prop, self.cx, c)
        except (HarnessError, KeyError, ValueError, IndexError, TypeError, AttributeError):
            return False
        if st == 'viol' and v.cls == self.cls:
            self.case = v.case if v.case is not None else c
            return True
        return False

    def sub(self, f):
        c = copy.deepcopy(self.case)
        if f(c) is False:
            return False
        return self.ok(c)

    def ddlist(self, get, put):
        n = 2
        while True:
            cur = get(self.case)
            if cur is None or len(cur) < 1:
                return
            size = max(1, -(-len(cur) // n))
            done = False
            for a in range(0, len(cur), size):
                rest = cur[:a] + cur[a + size:]
                c = copy.deepcopy(self.case)
                put(c, rest)
                if self.ok(c):
                    n = max(2, n - 1)
                    done = True
                    break
                if self.left <= 0:
                    return
            if not done:
                if size == 1:
                    return
                n = min(len(cur), n * 2)

    def run(self):
        pinned = set(self.case.get('pin', []))
        if isinstance(self.case.get('faults'), list):
            self.ddlist(lambda c: c['faults'], lambda c, v: c.__setitem__('faults', v))
        if self.case.get('var'):
            for fld in ('faults',):
                if self.case['var'].get(fld):
                    self.ddlist(lambda c: c['var'].get(fld) or [], lambda c, v: c['var'].__setitem__(fld, v))
        for kn in [('knobs',), ('var', 'knobs')]:
            def at(c):
                for k in kn:
                    c = c.get(k) if c else None
                return c
            for k in list((at(self.case) or {}).keys()):
                if k not in ('max_steps',) and k not in pinned:
                    self.sub(lambda c: at(c).pop(k, None) and None)
        if isinstance(self.case.get('ops'), bytes):
            self.ddlist(lambda c: c['ops'], lambda c, v: c.__setitem__('ops', v))
        if isinstance(self.case.get('history'), list):
            self.ddlist(lambda c: c['history'], lambda c, v: c.__setitem__('history', v))
        if 'files' in self.case and 'files' not in pinned:
            # whole files, then lines, then bytes of short files
            self.ddlist(lambda c: c['files'], lambda c, v: c.__setitem__('files', v))
            order = sorted(range(len(self.case['files'])), key=lambda k: -len(self.case['files'][k][2]))
            for fi in order:
                if len(self.case['files'][fi][2]) == 0:
                    continue

                def getl(c, fi=fi):
                    return c['files'][fi][2].splitlines(True)

                def putl(c, v, fi=fi):
                    c['files'][fi][2] = b''.join(v)
                self.ddlist(getl, putl)
            for fi in order:
                d = self.case['files'][fi][2]
                if 0 < len(d) < 400:
                    self.ddlist(lambda c: [bytes([b]) for b in c['files'][fi][2]],
                                lambda c, v: c['files'][fi].__setitem__(2, b''.join(v)))
        if isinstance(self.case.get('args'), list) and 'args' not in pinned and 'args' not in (self.case.get('var') or {}):
            for a in list(self.case['args'][1:]):
                if a in ('-o',) or a.startswith('--dump') or a.startswith('out/') or a.startswith('-z'):
                    continue
                self.sub(lambda c: c['args'].remove(a) if a in c['args'] else False)
        return self.case


# ---------------------------------------------------------------- known findings

def known_findings():
    """lines 'known: property=<id> match=<json of {class:..., text:...}> <what fails>' """
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            head, _, what = line[6:].strip().partition(' | ')
            f = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
            out.append((f['property'], f['class'], what))
    except FileNotFoundError:
        pass
    return out


# ---------------------------------------------------------------- main entry

def write_replay(prop, case, v, trace, tag, seed, index, tier):
    d = os.path.join(VERIF, 'out', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop.id, tag))
    ev = []
    for variant, plan, x in trace[-4:]:
        lines = x.events.decode('latin1').splitlines()
        ev.append({'build': variant, 'args': plan.args, 'outcome': x.outcome, 'code': x.code, 'msg': x.msg,
                   'steps': x.steps, 'digest': x.digest(), 'stderr': x.stderr[-600:].decode('latin1'),
                   'knobs': plan.knobs, 'faults': plan.faults,
                   'fault_trace': [l for l in lines if 'FAULT' in l][:50],
                   'trace': lines if len(lines) <= 120 else lines[:40] + ['...'] + lines[-80:]})
    with open(p, 'w') as f:
        json.dump({'property': prop.id, 'class': v.cls, 'what': v.text, 'seed': seed, 'case_index': index,
                   'tier': tier, 'replay': 'python3 dst/run.py --replay %s' % os.path.relpath(p, VERIF),
                   'case': enc(case), 'runs': ev, 'digest': trace_digest(trace)}, f, indent=1)
    return p


def trace_digest(trace):
    m = hashlib.sha256()
    for variant, plan, x in trace:
        m.update(variant.encode())
        m.update(plan.wire())
        m.update(x.digest().encode())
    return m.hexdigest()


def fresh(prop, bins, case):
    """run the case in a fresh process tree with its trace recorded"""
    cx = Cx(bins)
    cx.trace_log = []
    try:
        st, v = run_case(prop, cx, case)
    finally:
        cx.close()
    return st, v, cx.trace_log
