"""The properties: seeded cases and oracles."""
import os
import posixpath
import random
import re
import struct

from . import gen
from . import hist
from .core import Plan
from .harness import Inconclusive, Violation

BASE_STEPS = 60_000_000
HIST_STEPS = 2_000_000_000      # a history clears blocks of several MB, again and again
WERR = ['EIO', 'ENOSPC', 'EDQUOT', 'EPIPE', 'EFBIG', 'EINTR', 'EAGAIN']


def budget_hit(x):
    return x.outcome in ('steps', 'mem') or (x.outcome == 'signal' and x.code == 24)


def first_line(b, n=160):
    return b.decode('latin1').strip().split('\n')[0][:n]


def crashed(x):
    return x.outcome in ('signal', 'check')


def frame(msg):
    """class-worthy part of a sanitizer or assertion message"""
    return re.sub(r'0x[0-9a-f]+|\d{3,}', '#', msg)[:120]


def wcount(x, path, op='write'):
    return len(re.findall(('(?m)^\\d+ %s %s ' % (op, re.escape(path))).encode(), x.events))


def failed(x, op, path):
    """number of operations on path that returned an error"""
    return len(re.findall(('(?m)^\\d+ %s %s .*-> E\\w+ FAULT' % (op, re.escape(path))).encode(), x.events))


def footprint(x, allowed_out):
    """None or what the run did to files other than its output"""
    for p, (k, fl, d) in sorted(x.files.items()):
        if p.startswith('<') or p in allowed_out:
            continue
        if fl & 8:
            return 'removed ' + p
        if fl & 2:
            return ('wrote to ' if fl & 1 else 'created ') + p
        if fl & 4:
            return 'created ' + p
    if b' popen ' in x.events or re.search(rb'(?m)^(system|popen) ', x.events):
        return 'started a process'
    return None


# ---------------------------------------------------------------- completeness

def js_scenes(d):
    """None, or why the meshes of a JavaScript output do not fit together"""
    for n, b in enumerate(d.split(b'scene.push(')[1:]):
        a = {}
        for k in (b'vertex', b'normal', b'color', b'index'):
            m = re.findall(rb"'" + k + rb"':\[([-0-9,\s]*)\]", b)
            if len(m) != 1:
                return 'mesh %d without a list of its %s values' % (n, k.decode())
            a[k] = [int(x) for x in m[0].split(b',')] if m[0].strip() else []
        v = len(a[b'vertex'])
        if v % 3 or len(a[b'normal']) != v or 3 * len(a[b'color']) != 4 * v or len(a[b'index']) % 3:
            return 'mesh %d has lists that do not match: %s' % (n, {k.decode(): len(x) for k, x in a.items()})
        v //= 3
        if v > 65536:
            return 'mesh %d has %d vertices, more than its indices can name' % (n, v)
        m = re.findall(rb"'shiftI':(\d+)", b)
        sh = int(m[0]) if m else 0
        at, used = 0, bytearray(v)
        for x in a[b'index']:
            at += x - sh
            if not 0 <= at < v:
                return 'mesh %d: index %d, but there are %d vertices' % (n, at, v)
            used[at] = 1
        if not all(used):
            return 'mesh %d: vertex %d belongs to no triangle' % (n, used.index(0))
    return None


def structural(fmt, d):
    """None, or why d is not a structurally complete document"""
    if fmt == 'stlb':
        if len(d) < 84:
            return 'binary STL of %d bytes' % len(d)
        n = struct.unpack('<I', d[80:84])[0]
        if len(d) != 84 + 50 * n:
            return 'binary STL says %d triangles but holds %d bytes of data' % (n, len(d) - 84)
        return None
    if fmt == 'stl':
        L = d.split(b'\n')
        if not d.startswith(b'solid') or not d.endswith(b'\n') or not L[-2].startswith(b'endsolid'):
            return 'text STL does not end with endsolid'
        c = {}
        for l in L:
            w = l.split()
            if w:
                c[w[0]] = c.get(w[0], 0) + 1
        f = c.get(b'facet', 0)
        if c.get(b'solid') != 1 or c.get(b'endsolid') != 1:
            return 'text STL holds several solids'
        if not (c.get(b'endfacet', 0) == f == c.get(b'outer', 0) == c.get(b'endloop', 0)) or c.get(b'vertex', 0) != 3 * f:
            return 'text STL with incomplete facets'
        return None
    if fmt == 'ps':
        if not d.startswith(b'%!PS'):
            return 'PostScript without header'
        if not d.rstrip().endswith(b'%%EOF'):
            return 'PostScript without %%EOF'
        return None
    if fmt == 'js':
        t = js_scenes(d)
        if t:
            return t
    # SCAD and JavaScript: brackets balance outside strings and comments
    st = []
    pair = {')': '(', ']': '[', '}': '{'}
    t = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'|//[^\n]*|/\*.*?\*/', '', d.decode('latin1'), flags=re.S)
    for ch in re.findall(r'[()\[\]{}]', t):
        if ch in '([{':
            st.append(ch)
        elif not st or st.pop() != pair[ch]:
            return 'unbalanced brackets'
    if st:
        return 'unbalanced brackets at the end'
    if t.strip() and not t.rstrip().endswith((';', '}')):
        return 'document ends in the middle of a statement'
    return None


# ---------------------------------------------------------------- framework

class Prop:
    id = None
    builds = ('pat',)
    quick = 400
    thorough = 8000
    chunk = 4
    level = 'exploration'
    rule = ''
    real = 'all of hob3l (parser, importers, CSG, slicing, boolean operation, triangulation, writers, main)'
    stub = 'files and descriptors, allocator, clock, process id, environment, process exit'

    def ncases(self, tier):
        return self.quick if tier == 'quick' else self.thorough


def mkplan(case, var=None):
    p = Plan(case['args'], case['files'], case.get('knobs'), case.get('faults') or [], case.get('hist'))
    p.knobs.setdefault('max_steps', BASE_STEPS)
    if var:
        p.knobs.update(var.get('knobs') or {})
        p.faults = p.faults + (var.get('faults') or [])
        if 'args' in var:
            p.args = list(var['args'])
        if 'files' in var:
            p.files = var['files']
        for path, kind, data in var.get('addfiles') or []:
            p.files = p.files + [[path, kind, data]]
        for path, kind in var.get('rekind') or []:
            p.files = [[f[0], kind, f[2]] if f[0] == path else f for f in p.files if not (f[0] == path and kind == 0)]
    return p


class DiffProp(Prop):
    """run a base plan, then variants of it, and compare"""
    hang = True          # a variant that exceeds its generous step budget hangs
    bounded = False      # so does a first run (its work has a known bound far below the budget)

    def variants(self, case, base, r):
        raise NotImplementedError

    def judge(self, case, base, var, x):
        raise NotImplementedError

    def judge_base(self, case, base):
        return None

    def base_ok(self, base):
        return True

    def check(self, cx, case):
        base = cx.run(mkplan(case), case.get('build', 'pat'))
        if budget_hit(base):
            if self.bounded and base.outcome != 'mem':
                return Violation('hang', 'the history does not end: %s after %d steps' % (base.outcome, base.steps))
            raise Inconclusive('budget')
        cx.probe['base ' + ('ok' if base.ok else 'rejected' if base.outcome == 'exit' else base.outcome)] += 1
        v = self.judge_base(case, base)
        if v:
            return v
        if not self.base_ok(base):
            raise Inconclusive('base')
        if case.get('var'):
            vs = [case['var']]
        else:
            vs = self.variants(case, base, random.Random(case['vseed']))
        for var in vs:
            p = mkplan(case, var)
            if 'max_steps' not in (var.get('knobs') or {}):
                p.knobs['max_steps'] = 20 * base.steps + (HIST_STEPS if self.bounded else 40_000_000)
            x = cx.run(p, var.get('build', 'pat'))
            self.probe(cx, var, base, x)
            if x.outcome == 'mem' or (x.outcome == 'signal' and x.code == 24 and not self.bounded):
                continue
            if x.outcome == 'steps' or (x.outcome == 'signal' and x.code == 24):
                if not self.hang:
                    continue
                v = Violation('hang', 'run does not end: %d steps, the undisturbed run took %d' % (x.steps, base.steps))
            else:
                v = self.judge(case, base, var, x)
            if v:
                c = dict(case)
                c['var'] = var
                v.case = c
                v.text += ' [%s]' % self.describe(case, var, x)
                return v
        return None

    def probe(self, cx, var, base, x):
        cx.probe['variant ' + ('ok' if x.ok else x.outcome)] += 1

    def describe(self, case, var, x):
        o = []
        for f in var.get('faults') or []:
            o.append('%s %s #%d%s %s' % (f['kind'], f.get('path') or '*', f.get('from', 0),
                                         '' if f.get('count', 1) == 1 else '+' if f.get('count') == -1 else 'x%d' % f['count'],
                                         f.get('err') or ('short %d' % f['short'] if f.get('short', -1) >= 0 else 'eof' if f.get('eof') else 'limit %d' % f.get('limit', -1))))
        if var.get('knobs'):
            o.append(','.join('%s=%s' % kv for kv in sorted(var['knobs'].items()) if kv[0] != 'max_steps'))
        if 'args' in var:
            o.append('args ' + ' '.join(var['args']))
        return '; '.join(o) + '; ended ' + x.outcome + ' %d' % x.code


def from_workload(r, w, dest=None, **kw):
    dest = dest or r.choice(['file', 'stdout'])
    c = {'files': w.files, 'args': w.argv(dest), 'fmt': w.fmt, 'out': w.out(dest), 'knobs': {'seed': r.randrange(1 << 30)},
         'vseed': r.randrange(1 << 60)}
    if 'large' in w.feat:
        c['knobs']['max_steps'] = 600_000_000
    c.update(kw)
    return c


STAGES = ['--dump-syn', '--dump-scad', '--dump-csg3']


def stage(args, d):
    """these arguments, but what an earlier stage made is to be printed"""
    return [a for a in args if not a.startswith('--dump')] + [d]


def same(a, b, outs, stderr=False):
    """None or how two results differ"""
    if a.outcome != b.outcome or a.code != b.code:
        return 'status %s %d instead of %s %d: %s' % (b.outcome, b.code, a.outcome, a.code, b.msg or first_line(b.stderr))
    for o in outs:
        da, db = a.data(o), b.data(o)
        if da != db:
            if da is None or db is None:
                return '%s %s' % (o, 'missing' if db is None else 'unexpected')
            n = next((i for i in range(min(len(da), len(db))) if da[i] != db[i]), min(len(da), len(db)))
            return '%s differs at byte %d (%d instead of %d bytes)' % (o, n, len(db), len(da))
    if stderr and a.stderr != b.stderr:
        return 'diagnostics differ: %r instead of %r' % (b.stderr[-200:], a.stderr[-200:])
    return None


def diffclass(t):
    if t.startswith('status'):
        return 'status'
    if t.startswith('diagnostics'):
        return 'diagnostics'
    return 'output'


BUFS = [0, 0, 1, 7, 64, 100, 512, 1000, 8192, 65536, -1]


# ---------------------------------------------------------------- C01

class C01(DiffProp):
    id = 'C01'
    quick, thorough = 1600, 24000
    rule = ('seeded models, formats, dump modes, file or stdout, with sequences of failing, short and space-limited '
            'writes, flushes, opens and closes of the output; a run counts as non-trivial if at least one fault fired')

    def gen(self, r, i, tier):
        w = gen.large(r) if i % 200 == 17 else gen.workload(r, size=r.choice([1, 2, 2, 3]))
        c = from_workload(r, w)
        if r.random() < .12:
            d = r.choice(['--dump-syn', '--dump-scad', '--dump-csg3'])
            c['args'] = [a for a in c['args'] if not a.startswith('--dump')] + [d]
            c['fmt'] = 'text'
        return c

    def base_ok(self, base):
        return base.ok

    def judge_base(self, case, base):
        if base.ok:
            d = base.data(case['out'])
            if d is None:
                return Violation('no-output', 'status 0 but no output was written')
            t = structural(case['fmt'], d) if case['fmt'] != 'text' else None
            if t:
                return Violation('incomplete', 'status 0 but the output is incomplete: ' + t)
        return None

    def variants(self, case, base, r):
        out = case['out']
        size = len(base.data(out) or b'')
        vs = []
        for _ in range(10):
            kn = {}
            buf = r.choice(BUFS)
            kn['outbuf'] = kn['stdoutbuf'] = buf
            if r.random() < .3:
                kn['wchunk'] = r.choice([1, 3, 100, 1000])
                kn['rand_chunk'] = r.randrange(2)
            eff = buf if buf > 0 else 4096 if buf == 0 else 24
            if 'wchunk' in kn:
                eff = min(eff, kn['wchunk'])
            nw = max(1, -(-size // eff))
            f = []
            k = r.randrange(12)
            pos = r.choice([0, nw - 1, max(0, nw - 2), r.randrange(nw), r.randrange(nw), r.randrange(nw)])
            if k <= 2:
                f.append({'kind': 'write', 'path': out, 'from': pos, 'count': r.choice([1, 1, 1, 2, 5]), 'err': r.choice(WERR)})
            elif k == 3:
                f.append({'kind': 'write', 'path': out, 'from': pos, 'count': -1, 'err': r.choice(WERR)})
            elif k <= 6:
                lim = r.choice([0, 1, size - 1, max(0, size - 5), r.randrange(size + 1), r.randrange(size + 1), r.randrange(size + 1)])
                f.append({'kind': 'write', 'path': out, 'from': 0, 'count': -1, 'limit': max(0, lim), 'err': r.choice(['ENOSPC', 'EDQUOT', 'EFBIG', 'EIO'])})
            elif k == 7:
                s = r.choice([1, 2, 10, 100])
                f.append({'kind': 'write', 'path': out, 'from': pos, 'count': r.choice([1, 3, -1]), 'short': s})
            elif k == 8:
                s = r.choice([1, 2, 10, 100])
                f.append({'kind': 'write', 'path': out, 'from': pos, 'count': 1, 'short': s})
                f.append({'kind': 'write', 'path': out, 'from': pos + 1, 'count': r.choice([1, 1, -1]), 'err': r.choice(WERR)})
            elif k == 9:
                f.append({'kind': 'close', 'path': out, 'from': 0, 'count': r.choice([1, -1]), 'err': r.choice(['EIO', 'ENOSPC', 'EDQUOT', 'EINTR'])})
            elif k == 10:
                f.append({'kind': 'write', 'path': out, 'from': r.randrange(nw), 'count': 1, 'err': r.choice(WERR)})
                f.append({'kind': 'write', 'path': out, 'from': r.randrange(nw), 'count': 1, 'err': r.choice(WERR)})
                if r.random() < .4:
                    f.append({'kind': 'close', 'path': out, 'from': 0, 'count': 1, 'err': 'EIO'})
            else:
                if out == '<stdout>':
                    f.append({'kind': 'write', 'path': out, 'from': nw - 1, 'count': -1, 'err': 'EPIPE'})
                else:
                    f.append({'kind': 'open', 'path': out, 'from': 0, 'count': r.choice([1, -1]), 'err': r.choice(['EACCES', 'EROFS', 'ENOSPC', 'EMFILE', 'EIO', 'EISDIR', 'ENOMEM'])})
            if r.random() < .08:
                # standard descriptors closed at the start, alone or with the fault
                kn['closed'] = r.choice([1, 2, 2, 3, 6, 4, 7])
                if r.random() < .5:
                    f = []
            vs.append({'knobs': kn, 'faults': f})
        if out != '<stdout>' and r.random() < .3:
            vs.append({'addfiles': [[out, r.choice([2, 3]), b'']], 'knobs': {}})
        return vs

    def judge(self, case, base, var, x):
        if crashed(x):
            return Violation('crash', 'crash when output fails: %s' % (x.msg or 'signal %d' % x.code))
        if x.outcome == 'exit' and x.code == 0:
            d = x.data(case['out'])
            if d != base.data(case['out']):
                n = 0 if d is None else len(d)
                return Violation('lost-output', 'status 0 but the output holds %d of %d bytes%s' % (
                    n, len(base.data(case['out'])), '' if base.data(case['out']).startswith(d or b'') else ', changed'))
            if x.fired('close') and any(f['kind'] == 'close' for f in var.get('faults') or []):
                return Violation('close-ignored', 'status 0 although closing the output failed')
            if x.fired('open') and any(f['kind'] == 'open' and f.get('count') == -1 for f in var.get('faults') or []):
                return Violation('open-ignored', 'status 0 although the output could not be opened')
            if x.fired('sync'):
                return Violation('sync-ignored', 'status 0 although syncing the output failed')
            return None
        if not x.stderr.strip() and not var['knobs'].get('closed', 0) & 4:
            return Violation('no-diagnosis', 'output failed, nonzero status, but nothing on standard error')
        return None


# ---------------------------------------------------------------- C02

class C02(DiffProp):
    id = 'C02'
    quick, thorough = 1800, 24000
    rule = ('seeded trees of model, included and imported files; open and read errors at every block, error then end of file, '
            'missing, unreadable, directory, descriptor limit; non-trivial: a fault fired or a file was unavailable')

    def gen(self, r, i, tier):
        w = gen.workload(r, want='files' if r.random() < .85 else 'corpus', size=r.choice([1, 2]))
        c = from_workload(r, w)
        if r.random() < .12:
            c['args'] = stage(c['args'], r.choice(STAGES))
        return c

    def base_ok(self, base):
        return base.ok

    def variants(self, case, base, r):
        ins = [f for f in case['files'] if f[1] == 1 and not f[0].startswith('out/')]
        ins = [f for f in ins if wcount(base, f[0], 'open')]
        if not ins:
            return []
        vs = []
        for _ in range(12):
            f = r.choice(ins)
            size = len(f[2])
            kn = {'inbuf': r.choice([0, 0, 16, 61, 256, 1024, 65536, -1])}
            if r.random() < .3:
                kn['rchunk'] = r.choice([1, 10, 100, 1000])
                kn['rand_chunk'] = r.randrange(2)
            eff = {0: 4096, -1: 1024}.get(kn['inbuf'], kn['inbuf'])
            eff = min(eff, kn.get('rchunk', eff))
            nr = -(-size // eff) + 1
            pos = r.choice([0, nr - 1, max(0, nr - 2), r.randrange(nr), r.randrange(nr), r.randrange(nr)])
            err = r.choice(['EIO', 'EIO', 'EINTR', 'EAGAIN', 'EISDIR', 'ESTALE', 'ENOMEM', 'EBADF', 'EOVERFLOW', 'ETIMEDOUT', 'ENXIO'])
            k = r.randrange(10)
            if r.random() < .05:
                kn['closed'] = r.choice([1, 1, 3 if case['out'] != '<stdout>' else 1])
            v = {'knobs': kn, 'faults': [], 'target': f[0]}
            if k <= 2:
                v['faults'] = [{'kind': 'read', 'path': f[0], 'from': pos, 'count': -1, 'err': err}]
                v['must'] = 'read'
            elif k == 3:
                v['faults'] = [{'kind': 'read', 'path': f[0], 'from': pos, 'count': r.choice([1, 2]), 'err': err}]
            elif k == 4:
                v['faults'] = [{'kind': 'read', 'path': f[0], 'from': pos, 'count': 1, 'err': err},
                               {'kind': 'read', 'path': f[0], 'from': pos + 1, 'count': -1, 'eof': True}]
            elif k == 5:
                v['faults'] = [{'kind': 'read', 'path': f[0], 'from': pos, 'count': 1, 'short': r.choice([1, 5, 50])},
                               {'kind': 'read', 'path': f[0], 'from': pos + 1, 'count': -1, 'err': err}]
                v['must'] = 'read'
            elif k <= 7:
                v['faults'] = [{'kind': 'open', 'path': f[0], 'from': 0, 'count': r.choice([1, -1, -1]),
                                'err': r.choice(['ENOENT', 'EACCES', 'EMFILE', 'ENFILE', 'EIO', 'ELOOP', 'ENOMEM', 'EPERM', 'EINTR', 'ENAMETOOLONG', 'ENOTDIR'])}]
                if v['faults'][0]['count'] == -1:
                    v['must'] = 'open'
            elif k == 8:
                v['rekind'] = [[f[0], r.choice([0, 2, 3])]]
                v['must'] = 'kind'
            else:
                v['knobs']['max_fd'] = r.randint(1, max(1, len(ins)))
            vs.append(v)
        return vs

    def judge(self, case, base, var, x):
        if crashed(x) or x.outcome == 'assert':
            return Violation('crash', 'crash when input fails: %s' % (x.msg or 'signal %d' % x.code))
        if x.ok:
            t = same(base, x, [case['out']])
            if t:
                return Violation('partial-input', 'status 0 with an input not read completely: ' + t)
            m = var.get('must')
            if m == 'kind' or (m and failed(x, m, var['target'])):
                return Violation('ignored', 'status 0 although %s cannot be %s' % (var['target'], 'read' if m == 'read' else 'opened'))
            return None
        if not x.stderr.strip():
            return Violation('no-diagnosis', 'nonzero status but nothing on standard error')
        if x.fired('read') + x.fired('open') or var.get('rekind'):
            b = os.path.basename(var['target']).encode()
            if b not in x.stderr and not re.search(rb'\.(scad|stl|svg)', x.stderr):
                return Violation('unnamed', 'the diagnosis names neither the file nor the place that refers to it: %r' % x.stderr[:200])
        return None


# ---------------------------------------------------------------- C03

class C03(DiffProp):
    id = 'C03'
    builds = ('pat', 'asan')
    quick, thorough = 1100, 16000
    rule = ('seeded models; single allocation failures at sampled and early indices, bursts, persistent failure and size limits; '
            'plain and address-sanitizer builds; non-trivial: at least one allocation failed')

    def gen(self, r, i, tier):
        k = r.random()
        if k < .2:
            w = gen.workload(r, want='files', size=r.choice([1, 2]))
        else:
            w = gen.workload(r, size=r.choice([1, 1, 2]))
        c = from_workload(r, w)
        if r.random() < .1:
            c['args'] = [a for a in c['args'] if not a.startswith('--dump')] + [r.choice(['--dump-syn', '--dump-scad', '--dump-csg3'])]
        if r.random() < .15:
            # also on the way to an error message
            f = r.choice([f for f in c['files'] if f[0].endswith('.scad')])
            f[2] = mutate(r, f[2])
        return c

    def base_ok(self, base):
        return base.outcome in ('exit', 'abort')

    def variants(self, case, base, r):
        n = max(1, base.h['allocs'])
        vs = []
        for j in range(24):
            k = r.randrange(10)
            if k <= 4:
                f = {'from': r.randrange(n), 'count': 1}
            elif k == 5:
                f = {'from': int(n * r.random() ** 4), 'count': 1}
            elif k == 6:
                f = {'from': r.randrange(n), 'count': r.choice([2, 3, 10])}
            elif k == 7:
                f = {'from': r.randrange(n), 'count': -1}
            elif k == 8:
                f = None
            else:
                f = {'from': max(0, n - 1 - int(n * r.random() ** 4)), 'count': 1}
            kn = {}
            if r.random() < .25:
                kn = {'alloc_mode': r.randrange(4), 'move': 1, 'fill': r.choice([0, 0xff, 256])}
            if f is None:
                kn['full_mem'] = r.choice([64, 100, 200, 500, 1000, 3000, 5000, 20000, 100000, 600000, 1 << 20])
                fs = []
            else:
                fs = [dict(f, kind='alloc')]
            vs.append({'build': 'asan' if j % 3 == 0 else 'pat', 'knobs': kn, 'faults': fs})
        # no scratch memory for sorting larger arrays: libc then sorts in another way
        vs.append({'knobs': {'nosort': 1}, 'faults': []})
        return vs

    def judge(self, case, base, var, x):
        if crashed(x):
            return Violation('crash ' + frame(x.msg), 'memory error when an allocation fails: %s' % (x.msg or 'signal %d' % x.code))
        if x.fired('alloc') == 0 and not var['knobs'].get('nosort'):
            return None
        if x.ok:
            t = same(base, x, [case['out']])
            if t:
                return Violation('wrong-success', 'status 0 after a failed allocation, but ' + t)
            return None
        if x.outcome == base.outcome and x.code == base.code and x.stderr == base.stderr:
            return None
        if not x.stderr.strip():
            return Violation('no-diagnosis', 'failed allocation, nonzero status, but nothing on standard error')
        return None


# ---------------------------------------------------------------- C04

class C04(DiffProp):
    id = 'C04'
    builds = ('pat', 'zero', 'raw')
    quick, thorough = 2400, 30000
    hang = True
    rule = ('seeded models run with different contents of fresh heap and stack memory, block placement, moves, reuse, time, process '
            'id and environment; non-trivial: the run produced output or a diagnosis to compare')

    def gen(self, r, i, tier):
        w = gen.workload(r, size=r.choice([1, 2, 2, 3]))
        c = from_workload(r, w)
        c['knobs'].update({'alloc_mode': 0, 'fill': 0})
        c['build'] = 'zero'
        if r.random() < .12:
            c['args'] = [a for a in c['args'] if not a.startswith('--dump')] + [r.choice(['--dump-syn', '--dump-scad', '--dump-csg3'])]
        if r.random() < .12:
            f = r.choice([f for f in c['files'] if not f[0].startswith('out/')])
            f[2] = mutate(r, f[2])
        return c

    def base_ok(self, base):
        return base.outcome in ('exit', 'abort')

    def variants(self, case, base, r):
        vs = []
        for mode in (0, 1, 2, 3, 3):
            b = r.choice(['pat', 'pat', 'zero', 'raw', 'raw'])
            vs.append({'build': b,
                       'knobs': {'stackfill': r.choice([0xff, 0x01, 0x5a, 256]) if b == 'raw' else -1, 'seed': r.randrange(1 << 30), 'alloc_mode': mode,
                                 'fill': r.choice([0, 0x01, 0x55, 0x7f, 0x80, 0xa5, 0xff, 256, 256]), 'move': r.randrange(2)}})
        return vs

    def judge(self, case, base, var, x):
        if crashed(x):
            return Violation('crash', 'memory error: %s' % (x.msg or 'signal %d' % x.code))
        t = same(base, x, sorted({case['out'], '<stdout>'}), stderr=True)
        if t:
            return Violation(diffclass(t), t)
        return None


# ---------------------------------------------------------------- C05

class C05(DiffProp):
    id = 'C05'
    quick, thorough = 1700, 24000
    rule = ('seeded models with several layers; layer phase run by 1-8 simulated workers under seeded preemptive schedules and layer '
            'orders; layers also computed alone and in sub-ranges, with other allocators, and compared with the same layer of the whole run; non-trivial: at least two layers and one switch or reordering')

    def gen(self, r, i, tier):
        w = gen.workload(r, size=r.choice([1, 2, 2, 3]))
        w.args = [a for a in w.args if not a.startswith(('--step', '--min', '--max='))]
        if '-z' in w.args:
            k = w.args.index('-z')
            del w.args[k:k + 2]
        step = r.choice([0.25, 0.5, 0.75, 1, 1.5, 1 / 16, 1 / 64, 1 / 256])
        if step < .1 and w.fmt != 'scad' and r.random() < .8:
            step = 0.25      # a whole model in very thin layers takes long
        w.args += ['--step=%r' % step]
        if w.fmt != 'scad' and r.random() < .4:
            w.fmt = 'scad'
            w.args = [a for a in w.args if not a.startswith(('--js', '--ps', '--no-csg', '--diff', '--no-diff'))]
        if w.fmt != 'scad':
            return from_workload(r, w)
        # heights that are exact in binary, so that each layer can be asked for alone
        lo = r.choice([-6, -3, -1.5, -0.5, 0, 0.25, 0.5])
        if step < .1:
            lo += r.randrange(0, 256) / 64
        n = r.randint(3, 12)
        w.args += ['--min=%r' % lo, '--max=%r' % (lo + (n + .5) * step)]
        return from_workload(r, w, 'stdout', grid=[lo, step, n], pin=['args'])

    def base_ok(self, base):
        return base.outcome in ('exit', 'abort')

    def variants(self, case, base, r):
        vs = []
        for j in range(7):
            vs.append({'knobs': {'workers': 1 if j == 0 else r.choice([1, 2, 2, 3, 4, 8]), 'order': 1 if j == 0 else r.choice([0, 0, 1]),
                                 'quantum': r.choice([3, 20, 100, 500, 2000, 10000, 100000]), 'seed': r.randrange(1 << 30),
                                 'alloc_mode': r.choice([0, 2, 3]), 'fill': r.choice([0xa5, 0, 256])}})
        if case.get('grid') and base.ok:
            lo, step, n = case['grid']
            a = [x for x in case['args'] if not x.startswith(('--min=', '--max='))]
            for j in range(5):
                k = r.randint(0, n)
                m = 0 if j < 3 else r.randint(0, n - k)
                z = lo + k * step
                w = ['-z', '%r' % z] if m == 0 and r.random() < .7 else ['--min=%r' % z, '--max=%r' % (z + (m + .5) * step)]
                vs.append({'args': a + w, 'range': [z, z + m * step],
                           'knobs': {'seed': r.randrange(1 << 30), 'alloc_mode': r.randrange(4), 'fill': r.choice([0xa5, 0, 256])}})
        return vs

    @staticmethod
    def layers(d):
        o, cur = {}, None
        for l in d.decode('latin1').split('\n'):
            m = re.match(r' *translate\(\[0,0,([^\]]+)\]\) *\{', l)
            if m:
                cur = float(m.group(1))
                if cur in o:
                    return None
                o[cur] = []
            elif cur is not None:
                o[cur].append(l.strip())
        # the closing bracket of the group belongs to no layer
        for k in o:
            while o[k] and o[k][-1] in ('', '}'):
                o[k].pop()
        return o

    def judge(self, case, base, var, x):
        if crashed(x) or x.outcome == 'assert' and base.outcome != 'assert':
            return Violation('crash', 'crash under this schedule: %s' % (x.msg or 'signal %d' % x.code))
        if var.get('range'):
            if not x.ok:
                return Violation('status', 'the layers from %r to %r alone: status %s %d, all layers: 0: %s' % (
                    var['range'][0], var['range'][1], x.outcome, x.code, x.msg or first_line(x.stderr)))
            p, q = self.layers(base.stdout), self.layers(x.stdout)
            if p is None or q is None:
                return Violation('output', 'a layer occurs twice')
            p = {k: v for k, v in p.items() if var['range'][0] <= k <= var['range'][1]}
            if p != q:
                z = min([k for k in sorted(set(p) | set(q)) if p.get(k) != q.get(k)])
                return Violation('output', 'the layer at height %r differs when other layers are processed too' % z)
            return None
        t = same(base, x, sorted({case['out'], '<stdout>'}), stderr=base.ok)
        if t:
            return Violation(diffclass(t), 'processing order changes the result: ' + t)
        return None

    def probe(self, cx, var, base, x):
        super().probe(cx, var, base, x)
        if var.get('range'):
            cx.probe['layers alone'] += 1
            if x.ok and self.layers(x.stdout):
                cx.probe['layers alone, not empty'] += 1
        if x.h['nswitch'] > 1:
            cx.probe['preempted'] += 1
        elif x.h['nswitch']:
            cx.probe['one switch'] += 1


# ---------------------------------------------------------------- C06

class C06(Prop):
    id = 'C06'
    quick, thorough = 1800, 24000
    rule = ('seeded models and formats; the process is killed at a seeded step, the last write possibly torn; the remains are compared '
            'with the complete output and imported by the tool; non-trivial: killed before the regular end')

    def gen(self, r, i, tier):
        fmt = r.choice(['stl', 'stl', 'stlb', 'stlb', 'ps', 'js', 'scad'])
        w = gen.workload(r, fmt=fmt, size=r.choice([1, 1, 2, 2, 3]))
        dest = r.choice(['file', 'file', 'stdout'])
        c = from_workload(r, w, dest)
        c['knobs'].update({'outbuf': r.choice([0, 0, 1, 50, 300, 8192, 65536, -1])})
        c['knobs']['stdoutbuf'] = c['knobs']['outbuf']
        if c['out'] != '<stdout>' and r.random() < .4:
            # the output of an earlier run, complete or not, is still there
            old = b'solid model\n' + b'  facet normal 0 0 1\n    outer loop\n      vertex 0 0 0\n      vertex 0 1 0\n      vertex 1 0 0\n    endloop\n  endfacet\n' * r.choice([1, 20, 400, 4000]) + b'endsolid model\n'
            c['files'] = c['files'] + [[c['out'], 1, r.choice([old, old[:r.randrange(len(old))], b'x' * r.choice([1, 5000, 200000])])]]
        return c

    def points(self, case, base, r):
        ev = [int(m) for m in re.findall(rb'(?m)^(\d+) (?:write|open|close|rename|sync)', base.events)]
        o = []
        late = [e for e in ev if e > 0] or [base.steps]
        for _ in range(6):
            k = r.randrange(4)
            if k == 0:
                s = r.randrange(base.steps + 1)
            elif k == 1:
                s = r.randint(min(late), base.steps)
            else:
                s = r.choice(late) + r.choice([0, 0, 1, 1, 2, 5, 30, -1])
            o.append({'step': max(0, min(base.steps, s)), 'torn': r.random()})
        # a crash in the very end phase
        o.append({'step': base.steps - r.randint(0, min(base.steps, 60)), 'torn': 1.0})
        return o

    def check(self, cx, case):
        base = cx.run(mkplan(case))
        if budget_hit(base) or not base.ok:
            raise Inconclusive('base')
        out, fmt = case['out'], case['fmt']
        full = base.data(out)
        done = {}
        pts = [case['point']] if case.get('point') else self.points(case, base, random.Random(case['vseed']))
        for pt in pts:
            p = mkplan(case)
            p.knobs['crash_step'] = pt['step']
            x = cx.run(p)
            v = self.judge(cx, case, base, full, pt, x, done)
            if v:
                v.case = dict(case, point=pt)
                v.text += ' [killed at step %d of %d; ended %s]' % (pt['step'], base.steps, x.outcome)
                return v
        return None

    def judge(self, cx, case, base, full, pt, x, done):
        out, fmt = case['out'], case['fmt']
        if x.outcome == 'exit':
            t = same(base, x, [out])
            return Violation('changed', t) if t else None
        if x.outcome != 'crash':
            return Violation('crash', 'run ended with %s %s before the crash point' % (x.outcome, x.msg))
        t = footprint(x, [out])
        if t:
            return Violation('footprint', 'a killed run ' + t)
        d = x.data(out)
        if d is None or any(f[0] == out and f[2] == d for f in case['files']):
            return None     # not yet opened
        if not full.startswith(d):
            n = next((i for i in range(min(len(d), len(full))) if d[i] != full[i]), min(len(d), len(full)))
            return Violation('not-prefix', 'the output of a killed run is no prefix of the complete output (byte %d of %d)' % (n, len(full)))
        # the last write may be torn: any shorter prefix can be what is left
        lens = {len(d), int(len(d) * pt['torn'])}
        if len(d) > 40:
            lens.add(len(d) - 1 - int(pt['torn'] * 39))
        for n in sorted(lens):
            v = self.torn(cx, case, full, full[:n], done)
            if v:
                return v
        return None

    def torn(self, cx, case, full, d, done):
        fmt = case['fmt']
        if len(d) == len(full) or len(d) in done:
            return None
        done[len(d)] = 1
        if fmt == 'ps':
            if full.rstrip() == d.rstrip():
                return None
            if b'%%EOF' in d[-10:]:
                return Violation('looks-complete', 'PostScript cut off at byte %d of %d has an end mark' % (len(d), len(full)))
            return None
        if fmt not in ('stl', 'stlb'):
            return None
        if fmt == 'stl' and full.split() == d.split():
            return None

        def imp(data, name):
            return cx.run(Plan(['w/i.scad', '--dump-csg3'], [['w/i.scad', 1, b'import("%s");\n' % name], ['w/' + name.decode(), 1, data]],
                               {'max_steps': BASE_STEPS}))
        x = imp(d, b't.stl')
        cx.probe['torn STL imported'] += 1
        if budget_hit(x):
            return None
        if x.outcome not in ('exit', 'abort'):
            return Violation('import-crash', 'importing STL cut off at byte %d of %d: %s %s' % (len(d), len(full), x.outcome, x.msg))
        if x.ok:
            y = imp(full, b't.stl')
            if y.ok and y.stdout == x.stdout:
                return None
            return Violation('torn-accepted', 'STL cut off at byte %d of %d is imported as a complete model' % (len(d), len(full)))
        return None


# ---------------------------------------------------------------- C07

MILD = [8, 13, 15, 15, 15, 16, 17]      # mostly still a model


def mutate(r, d, n=None, kinds=None):
    b = bytearray(d)
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        L = len(b)
        k = r.choice(kinds) if kinds else r.randrange(20)
        if L == 0:
            b += bytes([r.randrange(256)])
            continue
        a = r.randrange(L)
        if k == 0:
            del b[a:]
        elif k == 1:
            b[a] = r.randrange(256)
        elif k == 2:
            b[a] ^= 1 << r.randrange(8)
        elif k == 3:
            del b[a:a + r.choice([1, 2, 5, 20, 100])]
        elif k == 4:
            e = min(L, a + r.choice([1, 5, 20, 100]))
            b[a:a] = b[a:e]
        elif k == 5:
            e = min(L, a + r.choice([1, 4, 16, 512]))
            b[a:e] = bytes(e - a)
        elif k == 6:
            e = min(L, a + r.choice([4, 16, 512, 4096]))
            s = r.randrange(L)
            b[a:e] = b[s:s + e - a]
        elif k == 7:
            b[a:a] = r.choice([b'(', b')', b'[', b']', b'{', b'}', b';', b'"', b'/*', b'//', b'\0', b'<', b'>', b'=', b',', b'-', b'.', b'e', b'\xff', b'\xc3',
                               b'include <', b'$', b'#', b'!', b'*', b'%', b'&#', b'<!--', b']]>', b'<![CDATA[', b'\\', b'\\u12', b'\\"', b'nan', b'inf', b'1e999', b'0x', b'\r'])
        elif k == 8:
            m = list(re.finditer(rb'-?\d+(\.\d+)?(e[-+]?\d+)?', bytes(b)))
            if m:
                x = r.choice(m)
                b[x.start():x.end()] = r.choice([b'0', b'-1', b'1e9', b'-1e9', b'1e30', b'1e-30', b'nan', b'-0', b'999999999999999999999', b'', b'2147483648', b'4294967295',
                                                 b'0.5', b'1e308', b'18446744073709551616', b'-2147483649', b'3', b'1e400', b'..', b'1.2.3', b'0x10', b'e5', b'65536', b'1e15'])
        elif k == 9:
            m = list(re.finditer(rb'[a-zA-Z_]+', bytes(b)))
            if len(m) > 1:
                x, y = r.choice(m), r.choice(m)
                b[x.start():x.end()] = y.group()
        elif k == 10:
            L2 = bytes(b).split(b'\n')
            i, j = r.randrange(len(L2)), r.randrange(len(L2))
            L2[i], L2[j] = L2[j], L2[i]
            b = bytearray(b'\n'.join(L2))
        elif k == 11:
            L2 = bytes(b).split(b'\n')
            i = r.randrange(len(L2))
            if r.random() < .5:
                del L2[i]
            else:
                L2.insert(i, L2[r.randrange(len(L2))])
            b = bytearray(b'\n'.join(L2))
        elif k == 12 and L > 84 or L > 84 and b.startswith((b'binary', b'\0', b' ')) and L > 84 and r.random() < .15:
            # binary STL header
            if r.random() < .5:
                b[80:84] = struct.pack('<I', r.choice([0, 1, (L - 84) // 50 + r.choice([-1, 1, 2]), 0x7fffffff, 0x80000000, 0xffffffff, 85899346, 0x80000000 + (L - 84) // 50, r.randrange(1 << 32)]) & 0xffffffff)
            else:
                b[80 + r.randrange(4)] = r.choice([0, 1, 255, 127, 128])
        elif k == 13 and L > 90:
            o = 84 + r.randrange(max(1, L - 88)) // 4 * 4
            b[o:o + 4] = struct.pack('<f', r.choice([0, 1e30, -1e30, float('inf'), float('nan'), 1e-40, 1, 2147483648.0]))
        elif k == 15:
            m = list(re.finditer(rb'-?\d+(\.\d+)?', bytes(b)))
            if m:
                x = r.choice(m)
                v = x.group()
                b[x.start():x.end()] = r.choice([b'%d' % (int(v) + r.choice([-1, 1, 1, 2])) if b'.' not in v and len(v) < 18 else v + b'1', v + b'0', b'-' + v, v[:-1],
                                                 r.choice(m).group()])
        elif k == 17:
            # a value of another kind
            m = list(re.finditer(rb'(?<=[(,=\[ ])(\[[^\[\]]*\]|\[(?:\[[^\[\]]*\],? *)*\]|-?[\d.]+|"[^"\n]*"|true|false)(?=[), \]])', bytes(b)))
            if m:
                x = r.choice(m)
                b[x.start(1):x.end(1)] = r.choice([b'3', b'-1', b'0', b'"a"', b'""', b'true', b'false', b'undef', b'[]', b'[1]', b'[1,2]', b'[1,2,3]', b'[1,2,3,4]', b'[[1,2],[3,4]]',
                                                   b'[[0,0],[4,0],[0,4]]', b'[[1,0,0],[0,1,0],[0,0,1]]', b'PI', b'[1:3]', b'[[]]', b'[[0,1,2]]', b'a', b'1+2', b'$fn', b'$fn=3', b'1.5', b'["a","b"]', b'[true]'])
        elif k == 16:
            m = list(re.finditer(rb'\[[^\[\]]*\]|\([^()]*\)|"[^"]*"', bytes(b)))
            if m:
                x = r.choice(m)
                v = x.group()
                e = re.split(rb'(?<=.)[, ](?=.)', v[1:-1])
                q = r.randrange(5)
                if q == 0 or len(e) < 2:
                    e = r.choice([[], e + e[-1:]])
                elif q == 1:
                    del e[r.randrange(len(e))]
                elif q == 2:
                    e.insert(r.randrange(len(e)), r.choice(e))
                elif q == 3:
                    i, j = r.randrange(len(e)), r.randrange(len(e))
                    e[i], e[j] = e[j], e[i]
                else:
                    e = [r.choice(e)] * len(e)
                b[x.start():x.end()] = v[:1] + b','.join(e) + v[-1:]
        else:
            m = list(re.finditer(rb'[\[\](){}<>",;=]', bytes(b)))
            if m:
                x = r.choice(m)
                b[x.start():x.end()] = r.choice([b'', b'', x.group() * 2, r.choice([b'[', b']', b'(', b')', b'{', b'}', b'"', b'<', b'>'])])
    return bytes(b)


class C07(Prop):
    id = 'C07'
    builds = ('pat', 'asan')
    quick, thorough = 36000, 450000
    chunk = 16
    rule = ('seeded input trees with one to three corruptions of stored bytes (truncation, zeroed, stale, duplicated or lost ranges, '
            'flipped bits, swapped lines or words, extreme numbers) in one file, under the address sanitizer or on the plain build with '
            'canaries; non-trivial: the damaged text differs from the original')

    def gen(self, r, i, tier):
        if i % 60 == 59:
            f, a = nested(r)
            w = gen.Workload(f, 'w/main.scad', a, r.choice(gen.FMT), set(), 0)
            c = from_workload(r, w, 'stdout')
            c['build'] = r.choice(['asan', 'pat', 'pat'])
            c['knobs'].update({'fill': 0xa5, 'max_steps': 60_000_000})
            return c
        if i % 60 == 57:
            return {'growth': growth(r, i // 60), 'files': [], 'args': [], 'knobs': {'fill': 0xa5}, 'build': 'pat'}
        k = r.random()
        if k < .45:
            w = gen.workload(r, want='corpus', size=r.choice([1, 2]))
        elif k < .7:
            w = gen.workload(r, want='gen', size=r.choice([1, 2]))
        elif k < .85:
            w = gen.workload(r, want='gen', size=1, files_ok=False)
            d = gen.stl_ascii(r) if r.random() < .5 else gen.stl_bin(r)
            w.files = [['w/main.scad', 1, b'import("a.stl");\n'], ['w/a.stl', 1, d], ['out/.keep', 1, b'']]
        else:
            w = gen.workload(r, want='gen', size=1, files_ok=False)
            w.files = [['w/main.scad', 1, b'linear_extrude(height=3) scale(0.1) import("a.svg", $fn=6);\n'], ['w/a.svg', 1, gen.svg(r)], ['out/.keep', 1, b'']]
        c = from_workload(r, w)
        if r.random() < .1:
            c['args'] = [a for a in c['args'] if not a.startswith('--dump')] + [r.choice(['--dump-syn', '--dump-scad', '--dump-csg3'])]
        ins = [f for f in c['files'] if not f[0].startswith('out/') and f[2]]
        if c['fmt'] in ('scad', 'ps') and r.random() < .03:
            c['args'] = c['args'] + ['--no-csg']
        imp = [f for f in ins if not f[0].endswith('.scad')]
        f = r.choice(imp) if imp and r.random() < .6 else r.choice(ins)
        f[2] = mutate(r, f[2], kinds=MILD if r.random() < .4 else None)
        c['build'] = 'asan' if r.random() < .6 else 'pat'
        c['knobs'].update({'fill': r.choice([0xa5, 0, 0xff, 256]), 'inbuf': r.choice([0, 0, 64, 1000]), 'max_steps': 30_000_000})
        return c

    def check_growth(self, cx, case):
        g = case['growth']
        s = []
        for m in (1, 4, 16):
            f = [['w/b.scad', 1, b'cube(1);\n'], ['w/b.stl', 1, grown(('text', 'solid\n', TETRA, 'endsolid\n'), 1)],
                 ['w/b.svg', 1, b'<svg><rect width="3" height="3"/></svg>'], ['out/.keep', 1, b'']]
            if g['main']:
                f.append(['w/main.scad', 1, g['main'].encode()])
            for sp in g['specs']:
                d = grown(sp[1:], g['n'] * m)
                f.append([sp[0], 1, d[:len(d) - g['lost']]])
            p = Plan(['w/main.scad', g['mode'], '-o', 'out/r.scad'], f, dict(case.get('knobs') or {}, max_steps=(60_000_000 if m == 1 else 20 * s[-1].steps + 1_000_000), cpu=20), [])
            x = cx.run(p, 'pat')
            s.append(x)
            if m == 1 and (budget_hit(x) or x.steps > 12_000_000):
                raise Inconclusive('budget')
            if crashed(x) or x.outcome == 'assert':
                return Violation('crash ' + frame(x.msg or 'signal %d' % x.code), 'long input: %s' % (x.msg or 'signal %d' % x.code))
            if budget_hit(x):
                return Violation('growth', 'reading and checking %d bytes takes %d steps, but %d bytes more than %d' % (size, s[-2].steps, sum(len(q[2]) for q in f), x.steps))
            size = sum(len(q[2]) for q in f)
        a, b, c = (x.steps for x in s)
        if b - a > 20000:
            q = (c - b) / (b - a)
            cx.probe['growth measured'] += 1
            if q > 8:
                return Violation('growth', 'four times the input takes %.1f times the steps: %d, %d, %d steps for up to %d bytes' % (q, a, b, c, size))
        return None

    def check(self, cx, case):
        if 'growth' in case:
            return self.check_growth(cx, case)
        x = cx.run(mkplan(case), case['build'])
        cx.probe['ended ' + (x.outcome if x.outcome != 'exit' else 'ok' if x.code == 0 else 'diagnosed')] += 1
        if x.outcome in ('signal', 'check') and not budget_hit(x):
            return Violation('crash ' + frame(x.msg or 'signal %d' % x.code), 'damaged input: %s' % (x.msg or 'signal %d' % x.code))
        if x.outcome == 'assert' and '--no-csg' in case['args'] and 'no v_line2 support' in x.msg:
            return Violation('no-csg-v_line2', 'output without boolean operation hits an internal assertion: ' + x.msg)
        if x.outcome == 'assert':
            return Violation(frame(x.msg), 'damaged input hits an internal assertion: ' + x.msg)
        if x.outcome in ('exit', 'abort') and not x.ok and not x.stderr.strip():
            return Violation('no-diagnosis', 'nonzero status but nothing on standard error')
        if budget_hit(x):
            # slow geometry is allowed, slow reading is not
            size = sum(len(f[2]) for f in case['files'])
            p = mkplan(case)
            p.args = [case['args'][0], '--dump-syn']
            p.knobs['max_steps'] = 20_000_000 + 3000 * size
            y = cx.run(p, case['build'])
            cx.probe['reading alone'] += 1
            if y.outcome == 'steps':
                return Violation('hang', 'reading %d bytes of input does not end within %d steps' % (size, y.steps))
            p.args = [case['args'][0], '--dump-scad']
            y = cx.run(p, case['build'])
            if y.outcome == 'steps':
                return Violation('hang', 'reading %d bytes of input does not end within %d steps' % (size, y.steps))
            imp = [f for f in case['files'] if re.search(r'\.(svg|stl)$', f[0])]
            if len(imp) == 1:
                # the import alone, coarsely
                p.files = [['w/m.scad', 1, b'%simport("%s",$fn=5);' % (b'linear_extrude(height=3) ' if imp[0][0].endswith('svg') else b'', imp[0][0].split('/', 1)[1].encode())]] + imp + [['out/.keep', 1, b'']]
                p.args = ['w/m.scad', '--dump-csg3', '--max-fn=5']
                p.knobs['max_steps'] = 100_000_000 + 30000 * size
                y = cx.run(p, case['build'])
                cx.probe['import alone'] += 1
                if y.outcome == 'steps':
                    return Violation('hang', 'importing %d bytes does not end within %d steps' % (len(imp[0][2]), y.steps))
            raise Inconclusive('budget')
        if x.ok:
            dumps = [a for a in case['args'] if a.startswith('--dump')][-1:]
            dumps = [a for a in dumps if a in ('--dump-syn', '--dump-scad', '--dump-csg3')]
            fmt = 'scad' if dumps else case['fmt']
            d = x.data(case['out']) or b''
            # the syntax tree is printed for debugging, blocks of it are no SCAD
            v = None if '--dump-syn' in dumps else structural(fmt, d)
            if v:
                return Violation('malformed', 'damaged input is accepted, but the output is malformed: ' + v)
            v = None if dumps else not_finite(fmt, d)
            if v:
                return Violation('not-finite', 'damaged input is accepted, but the output holds ' + v)
            nul = [f for f in case['files'] if f[0].endswith('.scad') and b'\0' in f[2]]
            if nul:
                # zeroed text may be rejected or skipped, but what follows it counts
                p = mkplan(case)
                p.files = [[f[0], f[1], f[2].replace(b'\0', b' ')] if f[0].endswith('.scad') else f for f in p.files]
                y = cx.run(p, case['build'])
                cx.probe['zeroed text accepted'] += 1
                if budget_hit(y):
                    raise Inconclusive('budget')
                t = same(y, x, [case['out']])
                if t:
                    return Violation('zeroed', 'zeroed bytes in the model are accepted, but with blanks in their place: ' + t)
        return None


def not_finite(fmt, d):
    """None or the first number in a document that is none"""
    if fmt == 'stlb':
        for k in range(84, len(d) - 49, 50):
            for v in struct.unpack('<12f', d[k:k + 48]):
                if v != v or abs(v) == float('inf'):
                    return str(v)
        return None
    m = re.search(rb'[\s,\[(=]-?(nan|inf)\b', d)
    return m.group(0).decode().strip() if m else None


def nested(r):
    """files nested to a depth around and beyond what can be supported"""
    n = r.choice([30, 200, 900, 990, 1000, 1010, 2000, 5000, 20000, 60000])
    cut = r.random() < .3        # the closing half is lost
    k = r.randrange(8)
    a = ['--step=3']
    if k == 0:
        f = r.choice(['union', 'difference', 'intersection', 'group', 'hull', 'render'])
        t = (f + '(){') * n + 'cube(1);' + ('' if cut else '}' * n)
    elif k == 1:
        t = r.choice(['translate([1,0,0]) ', 'rotate(3) ', 'color("red") ', 'mirror([1,0,0])\n', 'scale(1)\n', 'group()']) * n + ('' if cut else 'cube(1);')
    elif k == 2:
        t = 'cube(' + '[' * n + '1' + ('' if cut else ']' * n + ');')
    elif k == 3:
        t = r.choice(['difference(){cube(3);', 'union(){cube(3);', 'intersection(){cube(3);']) * n + 'cube(1);' + ('' if cut else '}' * n)
        if n < 4000:
            a.append('--dump-scad' if r.random() < .5 else '--dump-syn')
    elif k == 4:
        t = 'linear_extrude(height=1) ' + 'offset() union(){'.replace('offset() ', '') * n + 'square(1);' + ('' if cut else '}' * n)
    elif k == 5:
        g = '<svg>' + r.choice(['<g>', '<g transform="translate(1,1)">', '<a:g xmlns:a="b">'.replace('a:', ''), '<defs>']) * n + '<rect width="3" height="3"/>'
        g += '' if cut else '</g>' * n + '</svg>'
        return [['w/main.scad', 1, b'linear_extrude(height=3) import("a.svg");\n'], ['w/a.svg', 1, g.encode()], ['out/.keep', 1, b'']], a
    elif k == 6:
        n = min(n, 2000)
        return [['w/main.scad', 1, b'cube(1);\n' * r.randrange(2) + b'include <main.scad>\n']], a
    else:
        t = '{' * n + 'cube(1);' + ('' if cut else '}' * n)
    return [['w/main.scad', 1, t.encode()], ['out/.keep', 1, b'']], a


# how the cost of reading and checking grows: files made of one unit repeated; @...@ is computed from i, n

TRI = """ facet normal 0 0 0
  outer loop
   vertex %s
   vertex %s
   vertex %s
  endloop
 endfacet
"""


def _tris(pts):
    return ''.join(TRI % t for t in pts)


def _gp(k, z):
    return '@X(i+%d)@ @Y(i+%d)@ %s' % (k, k, z)


PRISM = _tris([(_gp(0, 0), _gp(1, 0), _gp(1, 9)), (_gp(0, 0), _gp(1, 9), _gp(0, 9)), ('0 0 9', _gp(0, 9), _gp(1, 9)), ('0 0 0', _gp(1, 0), _gp(0, 0))])
TETRA = _tris([('@3*i@ 0 0', '@3*i@ 2 0', '@3*i+2@ 0 0'), ('@3*i@ 0 0', '@3*i+2@ 0 0', '@3*i@ 0 2'),
               ('@3*i+2@ 0 0', '@3*i@ 2 0', '@3*i@ 0 2'), ('@3*i@ 0 0', '@3*i@ 0 2', '@3*i@ 2 0')])
GIMP = 'import("a.stl");\n'
GSVG = 'linear_extrude(height=3) import("a.svg");\n'
GROW_SCAD = [(h, u, t) for h, us, t in [
    ('', ['translate([1,2,3]) cube(4);\n', 'union(){ cube(1); }\n', 'cube(1);', '// comment\n', '/* a * b */\n', ' \n', '\t', '\r\n', 'cube(@i+1@,x=1);\n', 'echo("a");\n',
          'color("@["red","#123456","tan"][i%3]@") cube(1);\n', '#cube(1);\n*cube(2);\n%cube(3);\n', 'linear_extrude(height=1) text("ab");\n', ';\n', '{cube(1);}\n',
          'linear_extrude(height=2) polygon([[0,0],[3,0],[@i%5@,2]]);\n', 'multmatrix([[1,0,0,1],[0,1,0,@i@],[0,0,1,0],[0,0,0,1]]) cube(2);\n', 'cylinder(h=1,r=@i%7+1@,$fn=5);\n',
          'linear_extrude(height=1){square(1);circle(2,$fn=4);}\n', 'difference(){cube(2);translate([1,1,-1]) cube(3);}\n', 'include <b.scad>\n', 'use <b.scad>\n', 'import("b.stl");\n',
          'polyhedron(points=[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[[0,1,2],[0,3,1],[1,3,2],[0,2,3]]);\n', '$fn=@i+3@;\n', 'mirror([1,0,0]) sphere(1,$fn=4);\n', 'if (1) cube(1);\n', '@',
          'linear_extrude(height=3) import("b.svg");\n', 'group(){}\n', 'cube([1,@i%9+1@.5,2e0],center=true);\n'], 'cube(1);\n'),
    ('union(){\n', ['cube(4);\n', 'cube(@i+1@);', 'rotate(@i@) cube(1);\n'], '}'), ('difference(){\n', ['cube(4);\n', 'translate([@i@,0,0]) sphere(1,$fn=5);\n'], '}'),
    ('intersection(){', ['cube(4);\n'], '}\n'), ('linear_extrude(height=1) union(){', ['square(1);\n', 'translate([@i@,1]) circle(1,$fn=3);\n'], '}\n'),
    ('linear_extrude(height=1) hull(){', ['translate([@i@,@i*i%31@]) square(1);\n'], '}\n'), ('/*', ['comment *\n', '*'], '*/cube(1);'), ('cube(1,x="', ['abc', '\\n', '\\\\', ' ', 'ä'], '");'),
    ('cube(1,', ['x'], '=1);'), ('cube(1', ['0'], 'e-@n@);'), ('cube(0.', ['1'], ');'), ('cube(1,x=[', ['1,', '[1,2],', '"a",', '1,\n', 'true,'], '1]);'),
    ('linear_extrude(height=1) polygon([', ['[@X(i)@,@Y(i)@],', '[@X(i)@,@Y(i)@],\n'], ']);'), ('linear_extrude(height=1) polygon([[0,0],[9,0],[0,9]],[', ['[0,1,2],', '[2,1,0],\n'], '[0,1,2]]);'),
    ('polyhedron(points=[', ['[@X(i//2)@,@Y(i//2)@,@i%2@],'], '],faces=[[0,1,2]]);'), ('polyhedron(points=[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[', ['[0,1,2],[0,3,1],[1,3,2],[0,2,3],'], ']);'),
    ('linear_extrude(height=1) text("', ['ab ', 'abcd\\n'], '");'), ('import("', ['a/', './'], 'b.stl");\n'), ('linear_extrude(height=1) import(id="', ['a', 'a b', 'x\\n'], '",file="b.svg");\n'), ('', ['blorb@i@(3);\n', 'cube(1,blorb=3);\n', 'blorb() cube(@i+1@);\n'], 'cube(1);\n'), ('x=[', ['1,'], '1];cube(1);'), ('cube(1);//', ['x', ' // '], '\n')] for u in us]
GROW_SVG = [(h, u, t) for h, us, t in [
    ('<svg>', ['<rect x="1" y="2" width="3" height="3"/>\n', '<g><rect width="3" height="3"/></g>\n', '<foo bar="1"/>\n', '<circle r="@i+1@" cx="3"/>', '<!-- a - b -->\n', '<desc>x</desc>\n', '\n',
               '<path d="M0 0h5v5z"/>', '<polygon points="0,0 5,0 5,5"/>\n', '<ellipse rx="3" ry="2" id="a@i@"/>\n', 'text\n', '&amp;', '<?x y?>\n', '<![CDATA[ x ]]>\n'], '<rect width="3" height="3"/></svg>'),
    ('<svg><path d="M 0 0 ', ['L @i@ @i*i%17@ ', 'l1 @i%2@', 'h1v1', 'M@i*3@ 0h2v2z', 'Q@i@ 0 1 1 ', 'c1,0 2,0 2,2', 'a1 1 0 0 1 2 @i%2@ '], 'z"/></svg>'),
    ('<svg><polygon points="', ['@i@,@i*i%17@ ', '@X(i)@,@Y(i)@ '], '"/></svg>'), ('<svg><polyline points="', ['@i@,@i*i%17@\n'], '"/></svg>'), ('<svg><rect width="3" height="3" ', ['a@i@="x" ', 'a@i@="x&lt;y"\n'], '/></svg>'),
    ('<svg><!--', ['a - b\n', '- '], '--><rect width="3" height="3"/></svg>'), ('<svg><desc>', ['a &amp; b\n', ' ', '&#65;'], '</desc><rect width="3" height="3"/></svg>'),
    ('<svg><rect style="', ['fill:red;', 'a:b; '], '" width="3" height="3"/></svg>'), ('<svg><rect transform="', ['translate(1,1) ', 'scale(1)', ' '], '" width="3" height="3"/></svg>'),
    ('<svg><rect width="', ['0'], '3" height="3"/></svg>'), ('<svg><', ['r'], '/></svg>')] for u in us]


def grown(spec, n):
    """the bytes of a file: what comes first, n units, what comes last"""
    import math
    how, head, unit, tail = spec
    env = {'n': n, 'X': lambda j: round(50 * math.cos(2 * math.pi * j / n), 4) + 0.0, 'Y': lambda j: round(50 * math.sin(2 * math.pi * j / n), 4) + 0.0}
    t = []

    def put(u):
        f = u.split('@')
        if len(f) % 2 == 0 or len(f) == 1:
            return u
        for k in range(1, len(f), 2):
            f[k] = str(eval(compiled(f[k]), env))
        return ''.join(f)
    code = {}

    def compiled(e):
        if e not in code:
            code[e] = compile(e, 'unit', 'eval')
        return code[e]
    plain = put(unit) == unit if '@' not in unit or unit == '@' else False
    if plain:
        body = unit * n
    else:
        for i in range(n):
            env['i'] = i
            t.append(put(unit))
        body = ''.join(t)
    env['i'] = 0
    d = (put(head) + body + put(tail)).encode()
    if how == 'stlb':
        v = [tuple(map(float, l.split()[1:])) for l in d.decode().splitlines() if l.split()[:1] == ['vertex']]
        d = b'\0' * 80 + struct.pack('<I', len(v) // 3) + b''.join(struct.pack('<12fH', 0, 0, 0, *v[k], *v[k + 1], *v[k + 2], 0) for k in range(0, len(v), 3))
    return d


def growth(r, j):
    # one kind of text after the other
    k = r.random()
    if k < .5:
        main, specs = None, [['w/main.scad', 'text', *GROW_SCAD[j * 7 % len(GROW_SCAD)]]]
        u = specs[0]
        if r.random() < .3:
            # any other statements between the units
            other = r.choice([x for x in GROW_SCAD if x[0] == ''])
            if u[2] == '' and '@' != other[1] and u[3] != '@':
                u[3] = u[3] + r.choice(['', '\n']) + other[1]
    elif k < .85:
        main, specs = GSVG, [['w/a.svg', 'text', *GROW_SVG[j * 7 % len(GROW_SVG)]]]
    else:
        main, specs = GIMP, [['w/a.stl', r.choice(['text', 'stlb']), r.choice(['solid x\n', 'solid\n']), r.choice([PRISM, TETRA]), 'endsolid x\n']]
        if specs[0][1] == 'stlb':
            specs[0][2] = specs[0][4] = ''
    cut = r.choice([None, None, None, '@', '/*', '"', '(', ')', '\n'])
    if cut and specs[0][1] == 'text':
        specs[0][4] = r.choice(['', specs[0][4]]) + cut
    # (shapes below an extrusion are merged one after the other, which may take quadratic time: that is geometry, not reading)
    merged = specs[0][2].startswith('linear_extrude') and specs[0][2].endswith('{')
    n = r.choice([60, 100, 150, 250])
    if specs[0][1] == 'text' and specs[0][2] and len(specs[0][3]) < 6:
        n *= r.choice([1, 5, 10])
    return {'main': main, 'specs': specs, 'n': n, 'lost': r.choice([0, 0, 0, 1, 3, 20]),
            'mode': r.choice(['--dump-syn', '--dump-scad', *(['--dump-scad'] if merged else ['--dump-csg3']) * 2])}


# ---------------------------------------------------------------- C08

BAD_LINE = [b'@', b')', b']', b'cube(3;', b'translate([1,2) cube(1);', b'cube(size=@3);', b'\x01', b'blorbification(3);', b'polyhedron();',
            b'cube(3) cube(3));', b'= 3;', b'import("no such file.stl");', b'include <no_such_file.scad>', b'sphere("abc);' + b'"x);']


# statements that are rejected, with the place the message is about (@@) and the other place it refers to (%%);
# 's': rejected wherever they stand, 'c': rejected there in a three-dimensional context
BAD_STMT = [('s', t) for t in '''cube(@@"a");|sphere(r=@@"x");|cube([1,2,@@"z"]);|color(@@"no such") cube(1);|color([@@2,0,0]) cube(1);|
cylinder(1,2,3,4,@@5,6);|sphere(r=2,@@3);|translate(@@"x") cube(1);|multmatrix(@@[[1,2]]) cube(1);|linear_extrude(height=2,slices=@@1.5) square(1);|
@@linear_extrude() square(1);|linear_extrude(height=1) polygon(@@3);|linear_extrude(height=1) polygon(%%[[0,0],[1,0],[0,1]],[[0,1,@@9]]);|
linear_extrude(height=1) polygon([[0,0],[1,0],[0,1]],@@3);|polyhedron(points=@@3,faces=[[0,1,2]]);|polyhedron(points=[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=@@3);|
polyhedron(points=[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[@@3]);|polyhedron(points=%%[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[[0,1,2],[0,1,3],[1,2,3],[0,2,@@77]]);|polyhedron(points=%%[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[[0,1,2],[0,1,3],[1,2,3],[0,2,@@4]]);|linear_extrude(height=1) polygon(%%[[0,0],[1,0],[0,1]],[[0,1,@@3]]);|
polyhedron(points=[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[[0,1,2],[0,1,3],[1,2,3],@@[0,2]]);|polyhedron(points=[@@[0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[[0,1,2],[0,1,3],[1,2,3],[0,2,3]]);|
@@polyhedron(points=[[0,0,0],[1,0,0],[0,1,0],[0,0,1]]);|rotate_extrude(angle=@@"x") square(1);|import(@@3);|@@import();|cube(1,center=@@"x");|cube(@@1e999);|cube(@@x);|cube(@@[1,2]);|
translate(@@[1]) cube(1);|cube(@@;|cube(1,@@,2);|cube@@[1];|@@"abc";|@@3;|x@@=3;|$fn@@=3;|translate([@@1e300,0,0]) cube(1);|linear_extrude(height=1,twist=@@"a") square(1);|
sphere(r=1,$fn=@@-3);|sphere(r=1,$fn=@@2.5);|cylinder(h=1,r1=@@"x");|linear_extrude(height=1) text(@@3);|linear_extrude(height=1) text("x",size=@@"a");|
!%%cube(1); !@@cube(2);|linear_extrude(height=1) projection(cut=@@"x") cube(1);|include @@<no_such_file.scad>|import("a\\@@qb.stl");|import("@@no such file.stl");'''.replace('\n', '').split('|')] + [
    ('c', t) for t in '''@@mirror([0,0,0]) cube(1);|@@square(3);|@@circle(2);|linear_extrude(height=2) @@cube(1);|@@linear_extrude(height=-1) square(1);|@@cube(0);|@@sphere(0);|@@cylinder(h=0,r=1);|
@@scale([0,1,1]) cube(1);|@@text("x");|linear_extrude(height=1) @@polygon([[0,0],[1,0]]);|linear_extrude(height=1) polygon([@@[0,0],[1,0],%%[0,0]]);|@@rotate_extrude(angle=0) square(1);|
polyhedron(points=[[1,0,0],@@[0,0,0],[0,1,0],%%[0,0,0]],faces=[[0,1,2],[0,1,3],[1,2,3],[0,2,3]]);|linear_extrude(height=1){ square(1); @@cube(1); }|
@@multmatrix([[0,0,0,0],[0,0,0,0],[0,0,0,0],[0,0,0,1]]) cube(1);|@@linear_extrude(height=1,scale=[-1,1]) square(1);|@@projection() cube(1);|@@cylinder(h=1,r=-2);'''.replace('\n', '').split('|')]
BREAKABLE = rb'([(,;{]) *(?=[^"]*(?:"[^"]*"[^"]*)*$)|(?<=\)) (?=[^"]*(?:"[^"]*"[^"]*)*$)'
WARN = [b'@@%s(3);', b'@@%s() cube(1);', b'@@%s(){ cube(1); }', b'group() { @@%s(x="\xc3\xa4"); }', b'cube(1,%s=@@3);', b'translate([1,2,3], %s=@@"q") cube(1);', b'@@%s("a b", [1,2], true);',
        b'union() { cube(1); sphere(r=2, $fn=5, %s=@@[1,[2,3]]); }']


def expand(l):
    # as a message shows a line
    o = ''
    for ch in l.decode('latin1'):
        o += ' ' * (4 - len(o) % 4) if ch == '\t' else ch
    return o


class C08(Prop):
    id = 'C08'
    quick, thorough = 20000, 240000
    rule = ('seeded trees of files with one damaged line (illegal token, keyword, number, missing file), one of 80 kinds of rejected statement on one or '
            'several lines, a cut-off end, warnings, or one unreadable file, at a known place, with varying line endings, lengths, block boundaries and placement in memory; non-trivial: the input was rejected')

    def gen(self, r, i, tier):
        w = gen.workload(r, want='files' if r.random() < .8 else 'gen', size=r.choice([1, 2]))
        c = from_workload(r, w, 'stdout')
        if r.random() < .3:
            c['args'] = [c['args'][0], r.choice(['--dump-scad', '--dump-csg3'])]
        files = [f for f in c['files'] if not f[0].startswith('out/')]
        c['knobs'].update({'alloc_mode': r.randrange(4), 'move': r.randrange(2), 'fill': r.choice([0, 0xa5, 256]), 'inbuf': r.choice([0, 0, 17, 300])})
        k = r.random()
        scads = [f for f in files if f[0].endswith('.scad')]
        stls = [f for f in files if f[0].endswith('.stl') and f[2].startswith(b'solid') and b'vertex' in f[2]]
        svgs = [f for f in files if f[0].endswith('.svg')]
        c['pin'] = ['files']
        c['faults'] = []
        if r.random() < .4:
            f = r.choice(scads)
            pad = r.choice([10, 300, 4000, 4090, 4096, 5000, 9000, 20000])
            n = r.choice([1, 3, 50])
            ls = [b'// ' + b'x' * max(0, pad // n - 4) for _ in range(n)]
            f[2] = b'\n'.join(ls) + b'\n' + f[2]
        c['orig'] = [list(f) for f in c['files']]
        if k < .2 and len(files) > 1:
            # an unreadable file: the reference is at fault
            refs = {}
            for f in scads:
                for ln, l in enumerate(f[2].split(b'\n')):
                    for m in re.finditer(rb'(?:include <|import(?:_stl)?\((?:file=)?")([^">]+)[">]', l):
                        p = posixpath.normpath(posixpath.join(posixpath.dirname(f[0]), m.group(1).decode()))
                        refs.setdefault(p, []).append([f[0], ln + 1])
            cand = [p for p in refs if any(f[0] == p for f in files)]
            if cand:
                t = r.choice(sorted(cand))
                kd = r.choice(['read', 'open', 'gone'])
                if kd == 'gone':
                    c['files'] = [f for f in c['files'] if f[0] != t]
                else:
                    c['faults'] = [{'kind': kd, 'path': t, 'from': 0, 'count': -1, 'err': r.choice(['EIO', 'EACCES'])}]
                c['where'] = [refs[t][0][0], refs[t][0][1], refs[t][0][1]]
                c['alt'] = refs[t]      # any of several references may be the one that is named
                c['also'] = posixpath.basename(t)
                return c
        if k < .35 and stls:
            f = r.choice(stls)
            L = f[2].split(b'\n')
            cand = [j for j, l in enumerate(L) if l.split()[:1] in ([b'vertex'], [b'outer'], [b'facet'], [b'endloop'], [b'endfacet'])]
            j = r.choice(cand)
            w0 = L[j].split()[0]
            if w0 == b'vertex' and r.random() < .5:
                ws = L[j].split()
                ws[r.randint(1, 3)] = r.choice([b'@', b'x1', b'"', b'--3'])
                L[j] = b' '.join(ws)
            else:
                L[j] = L[j].replace(w0, r.choice([b'blorb', b'@', w0 + b'x']), 1)
            eol = r.choice([b'\n', b'\n', b'\r\n'])
            f[2] = eol.join(L)
            c['where'] = [f[0], j + 1, j + 1]
            return c
        if k < .45 and svgs:
            f = r.choice(svgs)
            L = f[2].split(b'\n')
            cand = [j for j, l in enumerate(L) if re.match(rb'\s*<(rect|circle|ellipse|polygon|path)\b', l)]
            if cand:
                j = r.choice(cand)
                L[j] = re.sub(rb'<(\w+) ', r.choice([rb'<\1 @="1" ', rb'<\1 = ', rb'<\1 "x" ', rb'<\1 ! ']), L[j], count=1)
                f[2] = b'\n'.join(L)
                c['where'] = [f[0], j + 1, j + 1]
                return c
        f = r.choice(scads)
        eol = b'\r\n' if f[2].count(b'\r\n') * 2 > f[2].count(b'\n') else b'\n'
        L = f[2].split(b'\n')
        # a line where a statement may start at top level or inside a block: line starts outside comments and open parentheses
        cand = []
        dep, com = 0, False
        for j, l in enumerate(L):
            prev = L[j - 1].rstrip(b'\r').rstrip() if j else b''
            if dep == 0 and not com and (j == 0 or prev.endswith((b';', b'{', b'}', b'>')) or prev == b''):
                cand.append(j)
            t = re.sub(rb'//.*|/\*.*?\*/|"[^"]*"', b'', l)
            dep += t.count(b'(') + t.count(b'[') - t.count(b')') - t.count(b']')
            if com:
                com = b'*/' not in l
            elif b'/*' in t:
                com = b'*/' not in t[t.index(b'/*'):]
        if r.random() < .1:
            # cut off within a statement
            t, beg = r.choice([(b'cube(1', 0), (b'cube([1,2,', 0), (b'translate([1,2,3])\n  cube(', 0), (b'sphere', 0), (b'color("red") {', 0), (b'group(){ cube(1);\n', 0), (b'sphere(r=', 0), (b'@@/* abc', 1), (b'@@/* abc\n def', 1),
                               (b'@@"abc', 1), (b'color(@@"abc', 1), (b'color(\n@@"abc\ndef', 1), (b'multmatrix([[1,0', 0)])
            eolb = b'\r\n' if eol == b'\r\n' else b'\n'
            t = (f[2] if f[2].endswith(b'\n') or not f[2] else f[2] + b'\n') + b' ' * r.choice([0, 0, 3]) + t.replace(b'\n', eolb) + r.choice([b'', b'', b' ', b'\t', eolb, b' // ~', b' // x' + eolb, eolb * 3])
            ln = t.count(b'\n') + 1
            if beg:
                ln = t[:t.index(b'@@')].count(b'\n') + 1
                c['where'] = [f[0], ln, ln]
            else:
                # an empty last line: the end of the last line with text or that of the file
                full = t.rstrip().count(b'\n') + 1
                c['where'] = [f[0], full if t.endswith(b'\n') else ln, ln]
            f[2] = t.replace(b'@@', b'')
            return c
        if r.random() < .5 and cand:
            return self.gen_stmt(r, c, f, L, cand, eol, files)
        j = r.choice(cand)
        bad = r.choice(BAD_LINE)
        L.insert(j, b' ' * r.choice([0, 0, 3, 40]) + bad + (b'\r' if eol == b'\r\n' else b''))
        f[2] = b'\n'.join(L)
        c['where'] = [f[0], j + 1, j + 1]
        return c

    @staticmethod
    def layout(r, t, j, eol, free):
        """a marked statement put on one or several lines from line j on: lines and places"""
        ind = lambda: r.choice([b'', b'', b'   ', b'\t', b' \t', b'  \t  '])
        if free and r.random() < .6:
            t = re.sub(BREAKABLE, lambda m: (m[1] or b' ') + (b'\n' + ind() if r.random() < .4 else b'/* \xc3\xa4\n */ ' if r.random() < .05 else b' '), t)
        if r.random() < .3:
            t = r.choice([b'/* x */ ', b'cube(1);\t', b'cube(1); ', b'group() { cube(1); } ']) + t
        t = ind() + t
        if r.random() < .3:
            t += r.choice([b' // ', b' // ~ ', b' //\t~\x7f']) + b'y' * r.choice([1, 50, 5000])
        ls = t.split(b'\n')
        place = {}
        for k, l in enumerate(ls):
            for mk in (b'@@', b'%%'):
                if mk in l:
                    place[mk] = [j + k + 1, len(expand(l[:l.index(mk)].replace(b'@@', b'').replace(b'%%', b''))) + 1]
        ls = [l.replace(b'@@', b'').replace(b'%%', b'') + (b'\r' if eol == b'\r\n' else b'') for l in ls]
        return ls, place.get(b'@@'), place.get(b'%%')

    def gen_stmt(self, r, c, f, L, cand, eol, files):
        main = c['args'][0] if c['args'][0] in [x[0] for x in files] else next(a for a in c['args'] if a.endswith('.scad'))
        if r.random() < .35:
            # warnings, at several places
            c['warn'] = []
            for n in range(r.choice([1, 2, 5])):
                nm = b'blorb%d' % n
                j = r.choice(cand)
                ls, a, _ = self.layout(r, r.choice(WARN) % nm, j, eol, True)
                L[j:j] = ls
                for w in c['warn']:
                    if w[1] > j:
                        w[1] += len(ls)
                cand = [x if x <= j else x + len(ls) for x in cand]
                c['warn'].append([nm.decode()] + a)
            f[2] = b'\n'.join(L)
            c['wfile'] = f[0]
            return c
        kind, t = r.choice(BAD_STMT)
        t = t.encode()
        if b'!%%' in t and any(b'!' in x[2] for x in files):
            kind, t = 's', b'cube(@@"a");'
        dep, tops = 0, []
        for j, l in enumerate(L):
            if dep == 0 and j in cand:
                tops.append(j)
            q = re.sub(rb'//.*|/\*.*?\*/|"[^"]*"', b'', l)
            dep += q.count(b'{') - q.count(b'}')
        top = f[0] == main and tops
        j = r.choice(tops if kind == 'c' and top else cand)
        exact = kind == 's' or top
        ls, a, b = self.layout(r, t, j, eol, exact)
        L[j:j] = ls
        f[2] = b'\n'.join(L)
        if a is None:
            a = [j + 1, 0]
            exact = False
            if len(ls) > 1:
                c['where'] = [f[0], j + 1, j + len(ls)]
                return c
        c['where'] = [f[0], a[0], a[0]]
        if exact:
            c['col'] = a[1]
            c['see'] = b
            if b and b'%%[0,0' in t:        # two equal points: either is the first
                c['alt'] = [[f[0], a[0]], [f[0], b[0]]]
                c['pair'] = [a, b]
        return c

    def quote(self, case, err, at):
        """a line that is quoted is the line that is named"""
        for m in re.finditer(r'(?m)^([^ \n][^\n]*?):(\d+):(\d+): (?:Error|Warning|Info)[^\n]*\n((?:[^\n]*\n)*?) ( *)\^$', err):
            if re.search(r'(?m)^[^ \n][^\n]*?:\d+:\d+: (?:Error|Warning|Info)', m.group(4)):
                continue
            fn, ln, col = posixpath.normpath(m.group(1)), int(m.group(2)), int(m.group(3))
            data = next((f[2] for f in case['files'] if f[0] == fn), None)
            if data is None:
                return Violation('wrong-file', 'the message names %s, which is no file of this model' % fn)
            L = data.split(b'\n')
            if ln > len(L):
                return Violation('wrong-line', '%s has %d lines, the message is about line %d' % (fn, len(L), ln))
            l = L[ln - 1]
            if re.search(rb'[^\t\r -~]', l):
                continue
            want = ' ' + expand(l).rstrip('\r')
            got = m.group(4).split('\n')[-2].rstrip('\r') if '\n' in m.group(4) else ''
            if got != want:
                return Violation('quote', 'line %d of %s is quoted as %r instead of %r' % (ln, fn, got[:120], want[:120]))
            if len(m.group(5)) != col - 1:
                return Violation('pointer', 'the message is about column %d, but the pointer is at column %d' % (col, len(m.group(5)) + 1))
        return None

    def check_warn(self, cx, case):
        x = cx.run(mkplan(case))
        if budget_hit(x):
            raise Inconclusive('budget')
        cx.probe['warned, ended ' + x.outcome + ' %d' % x.code] += 1
        if crashed(x) or x.outcome == 'assert':
            return Violation('crash', 'crash while reporting: %s %s' % (x.outcome, x.msg))
        if x.outcome != 'exit':
            raise Inconclusive('aborted')
        err = x.stderr.decode('latin1')
        for nm, ln, col in case['warn']:
            ms = re.findall(r"(?m)^(?:(.*?):(\d+):(\d+): )?(?:Warning|Error): Un\w+ [a-z ]*'%s'" % nm, err)
            if not ms and x.code == 0 and not any(a in ('-q', '--quiet') for a in case['args']):
                if nm in err:
                    return Violation('no-place', 'the warning about %s does not name its place' % nm)
                continue
            for m in ms:
                if not m[1]:
                    return Violation('no-place', 'the warning about %s names no file and line' % nm)
                if posixpath.normpath(m[0]) != case['wfile']:
                    return Violation('wrong-file', 'what the warning is about is in %s:%d, but it names %s:%s' % (case['wfile'], ln, m[0], m[1]))
                if int(m[1]) != ln:
                    return Violation('wrong-line', 'what the warning is about is in %s:%d, but it names line %s' % (case['wfile'], ln, m[1]))
                if int(m[2]) != col:
                    return Violation('wrong-column', 'what the warning is about is in %s:%d:%d, but it names column %s' % (case['wfile'], ln, col, m[2]))
        return self.quote(case, err, None)

    def check(self, cx, case):
        if case.get('warn'):
            return self.check_warn(cx, case)
        if 'where' not in case:
            raise Inconclusive('no place')
        x = cx.run(mkplan(case))
        if budget_hit(x):
            raise Inconclusive('budget')
        cx.probe['rejected' if x.outcome == 'exit' and x.code else x.outcome + ' %d' % x.code] += 1
        if crashed(x) or x.outcome == 'assert':
            return Violation('crash', 'crash while reporting: %s %s' % (x.outcome, x.msg))
        if x.outcome != 'exit' or x.code == 0:
            raise Inconclusive('accepted')
        err = x.stderr.decode('latin1')
        m = re.search(r'(?m)^(.*?):(\d+):(?:(\d+):)? Error', err)
        f, lo, hi = case['where']
        if m:
            for a in case.get('alt') or []:
                if [posixpath.normpath(m.group(1)), int(m.group(2))] == a:
                    f, lo, hi = a[0], a[1], a[1]
        if not m or posixpath.normpath(m.group(1)) != f or not lo <= int(m.group(2)) <= hi:
            # the message may be about something else the model is rejected for
            y = cx.run(mkplan(dict(case, files=case.get('orig') or case['files'], faults=[])))
            if not y.ok:
                raise Inconclusive('rejected anyway')
        if not m:
            return Violation('no-place', 'the error message names no file and line, expected %s:%d: %r' % (f, lo, err[:200]))
        got = posixpath.normpath(m.group(1))
        if got != f:
            return Violation('wrong-file', 'the error is in %s:%d but the message names %s:%s' % (f, lo, got, m.group(2)))
        if not lo <= int(m.group(2)) <= hi:
            return Violation('wrong-line', 'the error is in %s:%d but the message names line %s' % (f, lo, m.group(2)))
        if case.get('also') and case['also'] not in err:
            return Violation('unnamed', 'the message does not name the unreadable file %s' % case['also'])
        if case.get('pair') and m.group(3):
            a, b = case['pair']
            if [int(m.group(2)), int(m.group(3))] == b:
                a, b = b, a
            case = dict(case, col=a[1], see=b)
        if case.get('col') and m.group(3) and int(m.group(3)) != case['col']:
            return Violation('wrong-column', 'the error is in %s:%d:%d but the message names column %s' % (f, lo, case['col'], m.group(3)))
        if case.get('see'):
            n = re.search(r'(?m)^(.*?):(\d+):(?:(\d+):)? Info: See also', err)
            if not n:
                return Violation('no-see-also', 'the message does not name the other place, %s:%d: %r' % (f, case['see'][0], err[:200]))
            if (posixpath.normpath(n.group(1)) != f or int(n.group(2)) != case['see'][0]):
                return Violation('see-also', 'the other place is %s:%d but the message names %s:%s' % (f, case['see'][0], n.group(1), n.group(2)))
        return self.quote(case, err, m)


# ---------------------------------------------------------------- C09

def boundary_pad(r, off=0):
    """length that brings something near a block boundary"""
    blk = r.choice([512, 1024, 4096, 4096, 4096, 8192, 16384, 65536])
    return max(8, blk * r.randint(1, 3) - r.randint(0, 40) - off % blk + r.choice([0, 0, 0, blk]))


TOKENS = [rb'/\*', rb'\*/', rb'//', rb'\r\n|\n', rb'"[^"\n]*"', rb'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?', rb'\$?[A-Za-z_]\w*', rb'[#!%*]+ ?\w+', rb'(?:include|use) *<[^>]*>',
          rb'[\[\](){};,=]', rb'<[^<>]*>', rb'&[#\w]+;', rb'[ \t]+', rb'-\d', rb'[\x80-\xff]+', rb'<!--|-->|\?>|/>']


def token_place(r, t):
    """the beginning, inside or end of a token"""
    for _ in range(8):
        m = list(re.finditer(r.choice(TOKENS), t))
        if m:
            m = r.choice(m)
            return r.choice([m.start(), m.end(), r.randint(m.start(), m.end())])
    return 0


def modifiers(r, b):
    """modifier characters before some of the objects"""
    def one(m):
        return m[1] + (r.choice([b'#', b'!', b'%', b'*', b'#!', b'!#', b'#%', b'##', b'%#', b'# ! ', b'!\n#']) if r.random() < .2 else b'') + m[2]
    return re.sub(rb'((?:^|[;{})\n])[ \t]*)((?:cube|sphere|cylinder|translate|rotate|scale|union|difference|intersection|linear_extrude|polyhedron|color|mirror|group)\b)', one, b)


def exact_pad(r, off):
    """length that brings this place exactly to the beginning of a block"""
    blk = r.choice([512, 1024, 4096, 4096, 4096, 4096, 8192, 65536])
    n = -off % blk + blk * r.choice([0, 0, 1, 2])
    return n if n >= 8 else n + blk


class C09(DiffProp):
    id = 'C09'
    quick, thorough = 1800, 26000
    rule = ('seeded models; reads and writes divided at random, buffer sizes from unbuffered to 64 KB, output to file or stdout, comment '
            'padding that moves text across block boundaries; non-trivial: a read or write was divided, redirected or moved')

    def gen(self, r, i, tier):
        w = gen.large(r) if i % 360 == 17 else gen.workload(r, size=r.choice([1, 2, 2, 3]), want='files' if r.random() < .4 else None)
        c = from_workload(r, w)
        c['w'] = {'file': w.argv('file'), 'stdout': w.argv('stdout'), 'fout': w.out('file')}
        if r.random() < .15:
            d = r.choice(STAGES)
            c['args'] = stage(c['args'], d)
            for k in ('file', 'stdout'):
                c['w'][k] = stage(c['w'][k], d)
        if r.random() < .3:
            f = r.choice([f for f in c['files'] if f[0].endswith('.scad')])
            f[2] = modifiers(r, f[2])
        if r.random() < .15:
            # a damaged model: usually rejected, always in the same way
            f = r.choice([f for f in c['files'] if f[0].endswith('.scad')])
            f[2] = mutate(r, f[2])
            c['damaged'] = 1
            c['knobs']['max_steps'] = 30_000_000
        return c

    def base_ok(self, base):
        return base.outcome in ('exit', 'abort')

    def variants(self, case, base, r):
        vs = []
        for j in range(8):
            kn = {}
            if r.random() < .7:
                kn['inbuf'] = r.choice([1, 2, 13, 100, 512, 4095, 4097, 65536, -1])
            if r.random() < .5:
                kn['rchunk'] = r.choice([1, 2, 7, 50, 1000, 4095])
                kn['rand_chunk'] = r.randrange(2)
            if r.random() < .5:
                kn['outbuf'] = kn['stdoutbuf'] = r.choice([1, 3, 100, 1000, 65536, -1])
            if r.random() < .4:
                kn['wchunk'] = r.choice([1, 3, 64, 1000])
                kn['rand_chunk'] = r.randrange(2)
            v = {'knobs': kn}
            if j in (1, 4):
                other = 'file' if case['out'] == '<stdout>' else 'stdout'
                v['args'] = case['w'][other]
                v['out'] = case['w']['fout'] if other == 'file' else '<stdout>'
            if j >= 5:
                v['files'] = self.pad(r, case['files'], case.get('damaged'))
            vs.append(v)
        return vs

    def pad(self, r, files, front=None):
        o = [list(f) for f in files]
        for f in o:
            if r.random() < .2:
                continue
            if f[0].endswith('.scad'):
                k = r.randrange(10)
                if k < 6:
                    # bring a token, or its inside or end, to the beginning of a block
                    n = exact_pad(r, token_place(r, f[2]))
                elif k < 7:
                    n = exact_pad(r, len(f[2]))
                elif k < 8:
                    n = boundary_pad(r, r.randrange(len(f[2]) + 1))
                else:
                    n = boundary_pad(r)
                p = r.choice([b' ' * n, b'/*' + b'-' * (n - 4) + b'*/', b'\n' * n, b'\r\n' * (n // 2) + b' ' * (n % 2), b'//' + b'c' * (n - 3) + b'\n'])
                f[2] = p + f[2] if front or r.random() < .9 else f[2] + (b'\n' if not f[2].endswith(b'\n') else b'') + p
            elif front:
                pass
            elif f[0].endswith('.stl') and f[2].startswith(b'solid') and b'endsolid' in f[2]:
                L = f[2].split(b'\n')
                j = 1 if r.random() < .5 else r.randrange(1, len(L))
                o1 = sum(len(l) + 1 for l in L[:j])
                n = exact_pad(r, o1 + token_place(r, f[2][o1:])) if r.random() < .6 else boundary_pad(r, o1)
                L[j] = b' ' * n + L[j]
                f[2] = b'\n'.join(L)
            elif f[0].endswith('.svg'):
                L = f[2].split(b'\n')
                j = 1 if r.random() < .5 else r.randrange(1, len(L))
                o1 = sum(len(l) + 1 for l in L[:j])
                n = exact_pad(r, o1 + token_place(r, f[2][o1:])) if r.random() < .6 else boundary_pad(r, o1)
                L[j] = r.choice([b' ' * n, b'<!--' + b'x' * (n - 7) + b'-->', b'\n' * n]) + L[j]
                f[2] = b'\n'.join(L)
        return o

    def judge(self, case, base, var, x):
        if crashed(x) or x.outcome == 'assert' and base.outcome != 'assert':
            return Violation('crash', 'crash: %s' % (x.msg or 'signal %d' % x.code))
        if x.outcome != base.outcome or x.code != base.code:
            return Violation('status', 'status %s %d instead of %s %d: %s' % (x.outcome, x.code, base.outcome, base.code, x.msg or first_line(x.stderr)))
        # what is said is the same, except for the places if these were moved
        u, v = base.stderr, x.stderr
        if 'files' in var:
            u, v = [re.findall(rb'((?:Error|Warning): .*)', t) for t in (u, v)]
        if u != v:
            return Violation('messages', 'other messages: %r instead of %r' % (v[-2:] if 'files' in var else v[-160:], u[-2:] if 'files' in var else u[-160:]))
        if not base.ok:
            return None
        a, b = base.data(case['out']), x.data(var.get('out', case['out']))
        if a != b:
            n = next((i for i in range(min(len(a), len(b or b''))) if a[i] != b[i]), 0)
            return Violation('output', 'output differs at byte %d (%s instead of %d bytes)' % (n, b if b is None else len(b), len(a)))
        return None


# ---------------------------------------------------------------- C10

class C10(DiffProp):
    id = 'C10'
    quick, thorough = 1800, 26000
    rule = ('seeded directory trees with relative, nested and absolute references, files of the same name in other directories, '
            'and fault sequences; the log of file operations and all files are compared with a reference resolver; non-trivial: the tree '
            'holds at least one other file than the model')

    def gen(self, r, i, tier):
        w = gen.workload(r, want='files' if r.random() < .9 else None, size=r.choice([1, 2, 2]))
        c = from_workload(r, w)
        c['gen'] = 'corpus' not in w.feat
        if r.random() < .12:
            c['args'] = stage(c['args'], r.choice(STAGES))
        # bystanders next to the output
        c['files'] = c['files'] + [['out/other.stl', 1, b'solid keep\nendsolid keep\n'], ['out/r', 1, b'keep'], ['w/notes.txt', 1, b'keep']]
        return c

    def base_ok(self, base):
        return base.ok

    def expected(self, files, main):
        """the files a run may open, and what each reference resolves to"""
        have = {f[0]: f[2] for f in files}
        seen, todo = set(), [main]
        while todo:
            p = todo.pop()
            if p in seen or p not in have:
                if p == main:
                    seen.add(p)
                continue
            seen.add(p)
            if p.endswith('.scad'):
                t = re.sub(rb'//[^\n]*|/\*.*?\*/', b'', have[p], flags=re.S)
                for m in re.finditer(rb'(?:include\s*<|import(?:_stl)?\s*\([^"()]*")([^">]+)[">]', t):
                    n = m.group(1).decode('latin1')
                    todo.append(posixpath.normpath(n if n.startswith('/') else posixpath.join(posixpath.dirname(p), n)))
        return seen

    def judge_base(self, case, base):
        return self.foot(case, base, case['files'], case['args'][0], case['out'])

    def foot(self, case, x, files, main, out):
        t = footprint(x, [out])
        if t:
            return Violation('footprint', 'the run ' + t)
        exp = self.expected(files, posixpath.normpath(main))
        for m in re.finditer(rb'(?m)^\d+ open (.*) (\w+) -> ', x.events):
            p, mode = m.group(1).decode('latin1'), m.group(2).decode()
            if 'w' in mode or 'a' in mode:
                if p != out:
                    return Violation('footprint', 'the run opened %s for writing' % p)
            elif p not in exp:
                return Violation('foreign-open', 'the run opened %s, which no file refers to' % p)
        return None

    def variants(self, case, base, r):
        vs = []
        files = case['files']
        for _ in range(3):
            # decoys: same names, other directories, other contents
            add = []
            have = {f[0] for f in files}
            names = sorted({posixpath.basename(f[0]) for f in files if f[0].startswith('w/')})
            for n in names:
                for d in ('', 'w/', 'w/sub/', 'w/lib/', 'w/lib/deep/', 'out/', 'sub/', 'w/w/', 'lib/'):
                    if d + n not in have and r.random() < .5:
                        have.add(d + n)
                        add.append([d + n, 1, r.choice([b'cube(77);\n', b'', b'sphere(3,$fn=4);', b'junk @@@'])])
            vs.append({'addfiles': add, 'expect': 'same', 'knobs': {}})
        # a file that is not there, and others with almost its name
        gone = [f for f in files if f[0] != 'w/main.scad' and b' open %s ' % f[0].encode() in base.events]
        if gone:
            g = r.choice(gone)[0]
            d, n = posixpath.split(g)
            stem, ext = posixpath.splitext(n)
            near = [n.upper(), n.capitalize(), stem.upper() + ext, stem + ext.upper(), n + ext, stem, n + '.bak', n + '~', n + '.orig', '.' + n,
                    n + '.gz', stem + '.stl', stem + '.svg', stem + '.scad', stem + '_' + ext, n.replace('_', '-'), n.lower()]
            add, have = [], {f[0] for f in files}
            for k in range(12):
                q = posixpath.join(d if r.random() < .7 else r.choice(['', 'w', 'lib', 'w/lib', 'out', 'libraries', 'w/libraries', '/usr/share/hob3l']),
                                   r.choice(near) if r.random() < .8 else n)
                if q not in have:
                    have.add(q)
                    add.append([q, 1, next(f[2] for f in files if f[0] == g)])
            vs.append({'files': [f for f in files if f[0] != g], 'addfiles': add, 'expect': 'gone', 'knobs': {}})
        # other names, in particular one name in several directories, and no include at all
        if case.get('gen') and not any(a in ('--dump-syn', '--dump-scad') for a in case['args']):
            vs.append({'files': gen.alias(r, files), 'expect': 'same', 'knobs': {}})
            t = gen.inline(files)
            if t:
                vs.append({'files': t, 'expect': 'same', 'knobs': {}, 'inline': 1})
        # moving the whole tree, or naming it differently, changes nothing
        def moved(pre, main):
            fs = []
            for f in files:
                fs.append([(pre + f[0][2:]) if f[0].startswith('w/') else f[0], f[1], f[2]])
            return fs, [main] + case['args'][1:]
        for pre, main in r.sample([('', 'main.scad'), ('/abs/x/', '/abs/x/main.scad'), ('a/b/c/', 'a/b/c/main.scad'), ('w/', './w/main.scad'),
                                   ('w/', 'w/../w/main.scad'), ('w/', 'w//main.scad'), ('../up/', '../up/main.scad'), ('w.d/', 'w.d/main.scad'), ('', './main.scad')], 2):
            fs, a = moved(pre, main)
            if r.random() < .5 and pre != 'w/':
                # the original names hold something else now
                fs += [['w/' + f[0][2:], 1, b'cube(66);'] for f in files if f[0].startswith('w/') and f[0].endswith('.scad')]
            vs.append({'files': fs, 'args': a, 'expect': 'same', 'knobs': {}})
        if r.random() < .1:
            # no model named at all: nothing is read, whatever is there
            vs.append({'args': case['args'][1:], 'addfiles': [[n, 1, b'cube(3);\n'] for n in ('(null)', '-', 'stdin', 'out')], 'expect': 'reject', 'knobs': {}})
        # an absolute reference
        inc = [f for f in files if f[0] != 'w/main.scad' and f[0].startswith('w/') and f[0].endswith('.scad')]
        if inc and r.random() < .5:
            v = self.absref(r, files)
            if v:
                v['args'] = ['/q/w/main.scad'] + case['args'][1:]
                vs.append(v)
        for _ in range(4):
            k = r.randrange(5)
            t = r.choice(files)[0]
            f = [{'kind': 'read', 'path': t, 'from': r.randrange(3), 'count': -1, 'err': 'EIO'},
                 {'kind': 'open', 'path': t, 'from': 0, 'count': -1, 'err': r.choice(['ENOENT', 'EACCES', 'EMFILE'])},
                 {'kind': 'write', 'path': case['out'], 'from': r.randrange(5), 'count': -1, 'err': r.choice(WERR)},
                 {'kind': 'alloc', 'from': r.randrange(max(1, base.h['allocs'])), 'count': r.choice([1, -1])},
                 {'kind': 'open', 'path': case['out'], 'from': 0, 'count': -1, 'err': 'EACCES'}][k]
            vs.append({'faults': [f] if r.random() < .9 else [], 'expect': 'any', 'knobs': {'closed': r.randrange(8)} if r.random() < .2 else {}})
        return vs

    def absref(self, r, files):
        fs = [list(f) for f in files]
        m = re.search(rb'include <(?!/)([^>]+)>', fs[0][2])
        if not m or fs[0][0] != 'w/main.scad':
            return None
        rel = posixpath.normpath(posixpath.join('w', m.group(1).decode()))
        t = next((f for f in fs if f[0] == rel), None)
        if t is None:
            return None
        # move everything under /q, and refer to one file absolutely
        for f in fs:
            if f[0].startswith('w/'):
                f[0] = '/q/' + f[0]
        fs[0][2] = fs[0][2].replace(m.group(0), b'include </q/' + rel.encode() + b'>', 1)
        return {'files': fs, 'expect': 'same', 'knobs': {}}

    def judge(self, case, base, var, x):
        files = var.get('files', case['files']) + (var.get('addfiles') or [])
        args = var.get('args') or case['args']
        if var['expect'] == 'gone':
            files = case['files'] + var['addfiles']     # it may try to open the one that is gone
        v = self.foot(case, x, files, '/nothing' if var['expect'] == 'reject' else args[0], case['out'])
        if v:
            return v
        if crashed(x):
            return Violation('crash', 'crash: %s' % (x.msg or 'signal %d' % x.code))
        if var['expect'] == 'gone' and x.ok:
            return Violation('near-name', 'status 0 although a file the model refers to is not there, only some with other names')
        if var['expect'] == 'reject' and x.ok:
            return Violation('no-input', 'a run without a model ends with status 0')
        if var['expect'] == 'same':
            t = same(base, x, [case['out']])
            if t:
                return Violation('wrong-file', 'with other files of the same name, or the tree moved, the result changes: ' + t)
        return None


# ---------------------------------------------------------------- C11

class C11(DiffProp):
    id = 'C11'
    quick, thorough = 1800, 26000
    rule = ('seeded models, valid and damaged, with warnings and output faults; standard error fails or is cut short at any write; quiet '
            'and verbose variants; non-trivial: something was written to standard error or a verbosity changed')

    VERB = ('--verbose', '--quiet', '-v', '-q')
    LEVELS = ([], [], ['--quiet'], ['--verbose'], ['-v', '-v'], ['-v', '--verbose', '-v', '-v'], ['-q', '-v'], ['-v', '-v', '-q'])

    def gen(self, r, i, tier):
        w = gen.workload(r, size=r.choice([1, 2]), want='files' if r.random() < .3 else None)
        w.args = [a for a in w.args if a not in self.VERB]
        c = from_workload(r, w)
        if r.random() < .12:
            c['args'] = stage(c['args'], r.choice(STAGES))
        k = r.random()
        if k < .25:
            f = r.choice([f for f in c['files'] if not f[0].startswith('out/')])
            f[2] = mutate(r, f[2])
        elif k < .45:
            f = c['files'][0]
            f[2] = r.choice([b'text("abc");\n', b'cube(3,blorb=4);\n', b'minkowski(){cube(1);}\n', b'sphere(2,$fn=4,xyz=[1,2]);\n']) + f[2]
        elif k < .55:
            c['faults'] = [{'kind': 'write', 'path': c['out'], 'from': r.randrange(3), 'count': r.choice([1, -1]), 'err': r.choice(WERR)}]
        elif k < .65:
            t = r.choice([f for f in c['files'] if not f[0].startswith('out/')])[0]
            c['faults'] = [{'kind': r.choice(['open', 'read']), 'path': t, 'from': 0, 'count': -1, 'err': r.choice(['EIO', 'EACCES'])}]
        c['verb'] = r.choice(self.LEVELS)
        c['args'] = c['args'] + c['verb']
        return c

    def base_ok(self, base):
        return base.outcome in ('exit', 'abort')

    def variants(self, case, base, r):
        n = max(1, wcount(base, '<stderr>'))
        vs = []
        for _ in range(6):
            f = {'kind': 'write', 'path': '<stderr>', 'from': r.choice([0, 0, r.randrange(n), n - 1]), 'count': r.choice([1, -1, -1, 3])}
            k = r.randrange(4)
            if k == 0:
                f['short'] = r.choice([1, 3, 20])
            elif k == 1:
                f['count'], f['from'] = -1, 0
                f['limit'] = r.choice([0, 1, 5, 50, 200])
                f['err'] = 'ENOSPC'
            else:
                f['err'] = r.choice(['EIO', 'EPIPE', 'ENOSPC', 'EBADF', 'EAGAIN'])
            vs.append({'faults': [f], 'knobs': {}})
        # closed from the start: whatever is opened then must not become standard error
        vs.append({'faults': [], 'knobs': {'closed': r.choice([4, 4, 5] if case['out'] == '<stdout>' else [4, 4, 5, 6, 7])}})
        a = [x for x in case['args'] if x not in self.VERB]
        for w in (['--quiet'], ['--verbose'], [], r.choice(self.LEVELS[4:]), ['-v'] * r.choice([2, 3, 5])):
            if w != case['verb']:
                # before or after the other arguments
                v = {'args': w + a if r.random() < .3 else a + w, 'knobs': {}}
                if r.random() < .3:
                    v['faults'] = [{'kind': 'write', 'path': '<stderr>', 'from': r.randrange(n), 'count': -1, 'err': 'EIO'}]
                vs.append(v)
        return vs

    def judge(self, case, base, var, x):
        if crashed(x) or x.outcome == 'assert':
            return Violation('crash', 'crash: %s' % (x.msg or 'signal %d' % x.code))
        t = same(base, x, sorted({case['out'], '<stdout>'}))
        if t:
            return Violation(diffclass(t), ('standard error' if 'args' not in var else 'verbosity') + ' changes the result: ' + t)
        return None


# ---------------------------------------------------------------- C12

class Histories(DiffProp):
    """histories of container operations instead of runs of the tool"""
    bounded = True
    real = 'vectors, strings, pools, streams, allocation layer, panic'
    stub = 'files and descriptors, allocator, process exit; no parser or geometry code runs'

    def variants(self, case, base, r):
        vs = []
        n = max(1, base.h['allocs'])
        for j in range(3):
            vs.append({'build': r.choice(['pat', 'pat', 'asan', 'asan', 'rel']), 'knobs': {'alloc_mode': r.randrange(4), 'fill': r.choice([0, 0xff, 256, 0x55]), 'move': r.choice([1, 1, 0]), 'seed': r.randrange(1 << 30)}})
        for j in range(4):
            f = {'kind': 'alloc', 'from': r.choice([r.randrange(n), int(n * r.random() ** 3)]), 'count': r.choice([1, 1, 1, 3, -1])}
            vs.append({'build': r.choice(['pat', 'pat', 'pat', 'asan', 'asan', 'rel']), 'knobs': {'alloc_mode': r.randrange(4), 'fill': r.choice([0, 0xff, 256]), 'move': r.randrange(2)}, 'faults': [f]})
        return vs

    def base_ok(self, base):
        return True

    def check(self, cx, case):
        v = super().check(cx, dict(case, args=[], files=[['out/.keep', 1, b'']], hist=self.hist(case), knobs=dict(case.get('knobs') or {}, cpu=60, max_steps=HIST_STEPS)))
        if v and v.case:
            for k in ('args', 'files', 'hist'):
                v.case.pop(k, None)
        return v


class C12(Histories):
    id = 'C12'
    builds = ('pat', 'asan', 'rel')
    quick, thorough = 2600, 60000
    rule = ('seeded histories of 5 to 250 operations on up to six vectors (six element sizes, global and pool allocators), four strings and a '
            'file stream, compared with plain sequences after every operation, under moving, reusing and dirty allocators, with failing '
            'allocations and writes; non-trivial: distinct histories')

    def gen(self, r, i, tier):
        slots, bs, ops = hist.gen_seq(r, 1)
        return {'slots': slots, 'bs': bs, 'history': ops, 'knobs': {'seed': r.randrange(1 << 30), 'outbuf': r.choice([0, 1, 64, 1000, 8192]), 'move': r.randrange(2)},
                'vseed': r.randrange(1 << 60), 'build': r.choice(['pat', 'pat', 'pat', 'pat', 'asan', 'asan', 'rel'])}

    def hist(self, case):
        return ('seq', hist.encode(case['slots'], case['bs'], case['history']))

    def variants(self, case, base, r):
        vs = super().variants(case, base, r)
        nw = wcount(base, 'out/h.txt')
        if nw:
            for _ in range(4):
                k = r.randrange(5)
                f = {'kind': 'write', 'path': 'out/h.txt', 'from': r.randrange(nw), 'count': r.choice([1, 1, -1]), 'err': r.choice(WERR)}
                if k == 0:
                    f = {'kind': 'write', 'path': 'out/h.txt', 'from': 0, 'count': -1, 'limit': r.randrange(len(base.data('out/h.txt') or b'') + 1), 'err': 'ENOSPC'}
                elif k == 1:
                    f = {'kind': 'write', 'path': 'out/h.txt', 'from': r.randrange(nw), 'count': r.choice([1, -1]), 'short': r.choice([1, 5, 100])}
                elif k == 2:
                    f = {'kind': 'close', 'path': 'out/h.txt', 'from': r.randrange(4), 'count': 1, 'err': 'EIO'}
                elif k == 3:
                    f = {'kind': 'open', 'path': 'out/h.txt', 'from': r.randrange(3), 'count': 1, 'err': 'ENOSPC'}
                vs.append({'build': 'pat', 'knobs': {}, 'faults': [f]})
        return vs

    def expected(self, case):
        m = hist.Model(case['slots'])
        log = m.run(case['history'])
        return log, m.file

    def judge_base(self, case, base):
        return self.compare(case, base, {})

    def judge(self, case, base, var, x):
        return self.compare(case, x, var)

    def compare(self, case, x, var):
        if crashed(x):
            return Violation('memory ' + frame(x.msg), 'memory error: %s' % (x.msg or 'signal %d' % x.code))
        if x.outcome == 'assert':
            return Violation('assert ' + frame(x.msg), 'assertion: %s' % x.msg)
        want, data = self.expected(case)
        got = [l for l in x.events.decode('latin1').splitlines() if l.startswith('H ')]
        end = [l for l in got if l.startswith('H end')]
        got = [l for l in got if not l.startswith('H end')]
        if x.h['evdrop']:
            raise Inconclusive('log')
        n = next((i for i in range(min(len(want), len(got))) if want[i] != got[i]), None)
        if n is not None:
            op = case['history'][int(want[n].split()[1])]
            return Violation('differs op %d' % op[0], 'operation %s: got "%s", a plain sequence gives "%s"' % (op, got[n], want[n]))
        faulty = bool(var.get('faults')) and x.fired()
        if end:
            if len(got) != len(want):
                return Violation('length', '%d operations done instead of %d' % (len(got), len(want)))
            d = x.data('out/h.txt')
            if (d or b'') != data:
                return Violation('file', 'everything reported as done, but the file holds %d bytes instead of %d' % (len(d or b''), len(data)))
            if any(f['kind'] == 'close' for f in var.get('faults') or []) and x.fired('close'):
                return Violation('close', 'failed close not reported')
            live = int(end[0].split('live=')[1])
            if live and case.get('build') == 'pat' and var.get('build', 'pat') == 'pat':
                return Violation('leak', '%d bytes still allocated after everything was finished' % live)
            return None
        if not faulty:
            return Violation('ended', 'the history ends early without any fault: %s %d %s %s' % (x.outcome, x.code, x.msg, first_line(x.stderr)))
        if x.outcome == 'abort' and not x.stderr.strip():
            return Violation('no-diagnosis', 'failure without a message on standard error')
        if x.outcome == 'exit' and x.code != 1:
            return Violation('status', 'status %d' % x.code)
        return None


# ---------------------------------------------------------------- C13

class C13(Histories):
    id = 'C13'
    builds = ('pat', 'asan', 'rel')
    quick, thorough = 4000, 80000
    rule = ('seeded histories of 5 to 400 operations on two pools (or the global allocator) with block sizes from 1 byte to several MB, checked '
            'against the list of blocks handed out: zeroed, aligned, disjoint, contents kept; under different system allocators and failing '
            'allocations; non-trivial: distinct histories')

    def gen(self, r, i, tier):
        if r.random() < .15:
            kind, bs, ops = 'glob', [0, 0], hist.gen_glob(r, 1)
        else:
            kind = 'pool'
            bs, ops = hist.gen_pool(r, 1)
        return {'kind': kind, 'bs': bs, 'history': ops, 'knobs': {'seed': r.randrange(1 << 30), 'max_mem': 8 << 30, 'move': r.randrange(2), 'fill': r.choice([0xa5, 0xff, 256])},
                'vseed': r.randrange(1 << 60), 'build': r.choice(['pat', 'pat', 'pat', 'pat', 'asan', 'asan', 'rel'])}

    def hist(self, case):
        return (case['kind'], hist.encode_pool(case['bs'], case['history']))

    def judge_base(self, case, base):
        return self.compare(case, base, {})

    def judge(self, case, base, var, x):
        return self.compare(case, x, var)

    def compare(self, case, x, var):
        if crashed(x):
            return Violation('memory ' + frame(x.msg), x.msg or 'signal %d' % x.code)
        if x.outcome == 'assert':
            return Violation('assert ' + frame(x.msg), 'assertion: %s' % x.msg)
        end = re.search(rb'(?m)^P end live=(\d+)', x.events)
        if end:
            if int(end.group(1)) and case.get('build') == 'pat' and var.get('build', 'pat') == 'pat':
                return Violation('leak', '%d bytes still allocated after the pools were finished' % int(end.group(1)))
            return None
        if not (var.get('faults') and x.fired()):
            return Violation('ended', 'the history ends early without any fault: %s %d %s %s' % (x.outcome, x.code, x.msg, first_line(x.stderr)))
        if x.outcome == 'abort' and not x.stderr.strip():
            return Violation('no-diagnosis', 'failure without a message on standard error')
        return None


# ---------------------------------------------------------------- C27

class C27(Histories):
    id = 'C27'
    builds = ('pat', 'asan', 'rel')
    quick, thorough = 12000, 300000
    real = 'dictionaries, heaps, lists, vectors, allocation layer, panic'
    stub = 'allocator, process exit; no parser or geometry code runs'
    rule = ('seeded histories of 5 to 250 operations on up to four trees of up to 300 elements (inserting by key, reference and position, removing, '
            'swapping, joining, splitting, iterating while removing, cached extremes, augmentation), on a heap of up to 200 elements with failing '
            'allocations, on rings of up to 60 list nodes, or on sets of points in space; after each operation order, links, heights, extremes and returned elements are compared '
            'with a plain sequence; non-trivial: distinct histories')

    def gen(self, r, i, tier):
        kind, head, ops = hist.gen_ord(r)
        return {'kind': kind, 'head': head, 'history': ops, 'knobs': {'seed': r.randrange(1 << 30), 'move': r.randrange(2), 'fill': r.choice([0xa5, 0xff, 256])},
                'vseed': r.randrange(1 << 60), 'build': r.choice(['pat'] * 6 + ['asan'] * 2 + ['rel'] * 2)}

    def hist(self, case):
        return (case['kind'], hist.encode_ord(case['head'], case['history']))

    def variants(self, case, base, r):
        if case['kind'] not in ('heap', 'points') or not base.h['allocs']:
            return []
        return super().variants(case, base, r)[2:]

    def judge_base(self, case, base):
        return self.compare(case, base, {})

    def judge(self, case, base, var, x):
        return self.compare(case, x, var)

    def compare(self, case, x, var):
        if crashed(x):
            return Violation('memory ' + frame(x.msg), x.msg or 'signal %d' % x.code)
        if x.outcome == 'assert':
            return Violation('assert ' + frame(x.msg), 'assertion: %s' % x.msg)
        if x.h['evdrop']:
            raise Inconclusive('log')
        b = re.search(rb'(?m)^O bad (\d+) op=(\d+) (.*)$', x.events)
        if b:
            t = b.group(3).decode()
            return Violation('%s op %d %s' % (case['kind'], int(b.group(2)), re.sub(r'\d+', '#', t)),
                             '%s, operation %s: %s' % (case['kind'], case['history'][int(b.group(1))], t))
        end = re.search(rb'(?m)^O end(?: live=(\d+))?', x.events)
        if end:
            if end.group(1) and int(end.group(1)) and case.get('build') == 'pat' and var.get('build', 'pat') == 'pat':
                return Violation('leak', '%d bytes still allocated after the heap was finished' % int(end.group(1)))
            return None
        if not (var.get('faults') and x.fired()):
            return Violation('ended', 'the history ends early without any fault: %s %d %s %s' % (x.outcome, x.code, x.msg, first_line(x.stderr)))
        if x.outcome == 'abort' and not x.stderr.strip():
            return Violation('no-diagnosis', 'failure without a message on standard error')
        return None


# ---------------------------------------------------------------- C14

class C14(Prop):
    id = 'C14'
    quick, thorough = 2600, 40000
    rule = ('seeded sequences of one to three killed or failing runs (any step, any fault), or arbitrary old contents of the output, '
            'followed by a run without fault; non-trivial: the earlier runs left something on the disk')

    def gen(self, r, i, tier):
        w = gen.workload(r, size=r.choice([1, 1, 2]))
        c = from_workload(r, w, 'file')
        h = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(8)
            if k <= 2:
                h.append({'crash': r.random() if r.random() < .5 else 1 - r.random() ** 3 * .3, 'outbuf': r.choice([0, 1, 50, 8192])})
            elif k == 3:
                h.append({'write': r.choice(WERR), 'lim': r.random()})
            elif k == 4:
                h.append({'alloc': r.random()})
            elif k == 5:
                h.append({'read': r.choice([f[0] for f in c['files'] if f[0].startswith('w/')])})
            elif k == 6:
                w2 = gen.workload(r, fmt=w.fmt, size=2, files_ok=False)
                h.append({'other': [w2.files[0][2], ['w/other.scad'] + w2.args + ['-o', 'out/r.' + w.fmt]]})
            else:
                h.append({'old': bytes(r.randrange(256) for _ in range(r.choice([0, 1, 100]))) * r.choice([1, 50, 3000])})
        c['history'] = h
        return c

    def check(self, cx, case):
        base = cx.run(mkplan(case))
        if budget_hit(base) or base.outcome not in ('exit', 'abort'):
            raise Inconclusive('base')
        out = case['out']
        cur = {f[0]: list(f) for f in case['files']}
        size = len(base.data(out) or b'')
        left = 0
        for h in case['history']:
            c = dict(case, files=list(cur.values()))
            p = mkplan(c)
            p.knobs['outbuf'] = h.get('outbuf', 0)
            if 'crash' in h:
                p.knobs['crash_step'] = int(base.steps * h['crash'])
            elif 'write' in h:
                p.faults = [{'kind': 'write', 'path': out, 'from': 0, 'count': -1, 'limit': int(size * h['lim']), 'err': h['write']}]
            elif 'alloc' in h:
                p.faults = [{'kind': 'alloc', 'from': int(base.h['allocs'] * h['alloc']), 'count': 1}]
            elif 'read' in h:
                p.faults = [{'kind': 'read', 'path': h['read'], 'from': 0, 'count': -1, 'err': 'EIO'}]
            elif 'other' in h:
                p.files = p.files + [['w/other.scad', 1, h['other'][0]]]
                p.args = h['other'][1]
            else:
                cur[out] = [out, 1, h['old']]
                left += 1
                continue
            x = cx.run(p)
            if budget_hit(x):
                raise Inconclusive('budget')
            if crashed(x):
                raise Inconclusive('crash')     # other properties judge this
            for path, (k, fl, d) in x.files.items():
                if path.startswith('<'):
                    continue
                if fl & 8:
                    cur.pop(path, None)
                elif d is not None and fl & 6:
                    cur[path] = [path, k, d]
            left += out in cur
        cx.probe['left something' if left else 'left nothing'] += 1
        c = dict(case, files=list(cur.values()))
        y = cx.run(mkplan(c))
        if y.outcome == 'steps':
            return Violation('hang', 'the rerun does not end')
        t = same(base, y, [out, '<stdout>'] if base.ok else ['<stdout>'])
        if t:
            return Violation(diffclass(t), 'a rerun over what earlier runs left differs from a first run: ' + t)
        for f in case['files']:
            if cur.get(f[0], [None, None, None])[2] != f[2] and f[0] != out:
                return Violation('input-changed', 'an earlier run changed %s' % f[0])
        return None


# ---------------------------------------------------------------- C15

class C15(Prop):
    id = 'C15'
    quick, thorough = 900, 12000
    rule = ('seeded models whose layers are all alike, with N and 4N layers: unreachable heap blocks at the end, peak memory and descriptors, '
            'and the log of opens and closes; non-trivial: at least 8 layers')

    def gen(self, r, i, tier):
        s = gen.Scad(r, allow_files=False)
        for _ in range(20):
            shp = s.shape2(r.choice([0, 1, 1, 2]), 'w')
            if 'projection' not in shp:
                break
        else:
            shp = 'square(3);'
        k = r.randrange(7)
        H = 16
        mixed = False
        big = r.random() < .06
        if big:
            # layers that need several blocks of scratch memory
            n = r.randint(1000, 2500)
            t = 'cylinder(h=%d, r=50, $fn=%d);\ntranslate([9,0,0]) cylinder(h=%d, r=45, $fn=%d);\n' % (H, n, H, r.randint(1000, 2500))
            if r.random() < .5:
                t = r.choice(['difference()', 'intersection()', 'union()']) + ' {\n' + t + '}\n'
        elif k == 0:
            t = 'linear_extrude(height=%d) %s\n' % (H, shp)
        elif k == 1:
            t = 'difference() { linear_extrude(height=%d) %s translate([0.3,0.2,-1]) cube([2,3,%d]); }\n' % (H, shp, H + 2)
        elif k == 2:
            t = 'union() { linear_extrude(height=%d) %s translate([1,1,0]) cylinder(h=%d, r=3, $fn=%d); cube([1,9,%d]); }\n' % (H, shp, H, r.choice([5, 8, 12]), H)
        elif k == 3:
            # a comb or frame lying on its side: each layer cuts its faces in many points
            n = r.randint(1, 9)
            pts = ['[0,-2]'] + ['[%d%s]' % (2 * j + o, y) for j in range(n) for o, y in ((0, ',-1'), (0, ',%d' % H), (1, ',%d' % H), (1, ',-1'))] + ['[%d,-2]' % (2 * n)]
            t = 'translate([0,%d,0]) rotate([90,0,%s]) linear_extrude(height=%d) polygon([%s]);\n%s' % (
                r.choice([0, 3]), r.choice(['0', '30', '90']), r.randint(1, 5), ','.join(pts),
                r.choice(['', 'cube([3,3,%d]);\n' % H, '#cube([3,1,%d]);\n' % H]))
        elif k in (4, 5):
            # any model: only the leak scan counts
            mixed = True
            s = gen.Scad(r)
            t = s.text(r.choice([1, 2, 2]), 'w', 0)
            t = t.decode('latin1') if isinstance(t, bytes) else t
            H = r.choice([6, 10])
        else:
            n = r.randint(2, 14)
            t = ''.join('translate([%d,%d,0]) cube([3,%d,%d]);\n' % (r.randint(-9, 9), r.randint(-9, 9), r.randint(1, 6), H) for _ in range(n))
        fmt = r.choice(gen.FMT)
        N = r.choice([8, 10, 16])
        dest = r.choice(['file', 'stdout'])
        w = gen.Workload([['w/main.scad', 1, t.encode('latin1')]] + [[p, 1, d] for p, d in s.files] + [['out/.keep', 1, b'']],
                         'w/main.scad', gen.opts(r, fmt), fmt, set(), 0)
        w.args = [a for a in w.args if not a.startswith('--layer-gap')]
        if big:
            w.args.append('--max-fn=4000')
            N = 3
        c = from_workload(r, w, dest)
        c['pin'] = ['files']
        c['knobs'].update({'leakscan': 1, 'workers': 1, 'quantum': 1 << 40, 'max_steps': 600_000_000 if big else 150_000_000})
        c['N'] = N
        c['H'] = H
        if mixed:
            c['mixed'] = 1
            c['args'] += ['--min=-2', '--max=%d' % (H - 2), '--max-fn=12']
        return c

    def one(self, cx, case, n):
        c = dict(case)
        c['args'] = case['args'] + ['--step=%r' % (case['H'] / n)]
        x = cx.run(mkplan(c))
        if budget_hit(x):
            raise Inconclusive('budget')
        return x

    def check(self, cx, case):
        n = case['N']
        a, b, d = self.one(cx, case, n), self.one(cx, case, 2 * n), self.one(cx, case, 4 * n)
        for x in (a, b, d):
            v = self.closed(case, x)
            if v:
                return v
        if not (a.ok and b.ok and d.ok):
            raise Inconclusive('rejected')
        la, lb, ld = a.h['leak'], b.h['leak'], d.h['leak']
        if la[2] and ld[2]:
            cx.probe['scanned'] += 1
            # blocks nobody can reach must not grow with the number of layers
            q = .1 if case.get('mixed') else .5
            if ld[0] - la[0] >= 3 * n * q and lb[0] - la[0] >= n * q:
                return Violation('leak', 'unreachable blocks grow with layers: %d for %d, %d for %d, %d for %d layers (%d bytes)' % (
                    la[0], n, lb[0], 2 * n, ld[0], 4 * n, ld[1]))
        if case.get('mixed'):
            cx.probe['any model'] += 1
            return None
        sa, sb, sd = [len(x.data(case['out']) or b'') for x in (a, b, d)]
        # memory in use per layer: bounded by the data of the result
        ga = (d.h['peak'] - a.h['peak']) / (3.0 * n)
        out = (sd - sa) / (3.0 * n)
        ref = self.result_size(cx, case, n)
        cx.probe['memory slope measured'] += 1
        if ref is not None and ga > 3 * ref + 2048:
            return Violation('growth', 'memory in use grows by %d bytes per layer, the result by %d' % (ga, ref))
        return None

    def result_size(self, cx, case, n):
        """bytes of text STL per layer, a measure of the data of a layer that no format option changes"""
        c = dict(case)
        args = [a for a in case['args'] if not a.startswith(('--dump', '--ps', '--js', '--no-tri', '--path', '--diff', '--no-diff'))]
        if '-o' in args:
            k = args.index('-o')
            del args[k:k + 2]
        r = []
        for m in (n, 2 * n):
            c['args'] = args + ['--step=%r' % (case['H'] / m), '--dump-stl']
            x = cx.run(mkplan(c))
            if not x.ok:
                return None
            r.append(len(x.stdout))
        return (r[1] - r[0]) / float(n)

    def closed(self, case, x):
        nin = sum(1 for f in case['files'] if f[0].startswith('w/'))
        if x.h['open_peak'] > nin + 1:
            return Violation('open', '%d files open at once for %d input files' % (x.h['open_peak'], nin))
        if case['out'] != '<stdout>' and x.ok:
            o, c = wcount(x, case['out'], 'open'), wcount(x, case['out'], 'close')
            if o != c:
                return Violation('close', 'output opened %d times and closed %d times before exit' % (o, c))
        return None


# ---------------------------------------------------------------- C17

class C17(DiffProp):
    id = 'C17'
    builds = ('pat', 'rel')
    quick, thorough = 4000, 60000
    rule = ('seeded models, valid, damaged or under failing reads, writes, opens, closes and allocations, run by the build with and the one without '
            'assertions and debugging aids; non-trivial: the run produced output or a diagnosis to compare')

    def gen(self, r, i, tier):
        w = gen.large(r) if i % 640 == 17 else gen.workload(r, size=r.choice([1, 2, 2, 3]))
        c = from_workload(r, w)
        c['knobs'].update({'alloc_mode': r.randrange(4), 'fill': r.choice([0, 0xff, 0x55, 256]), 'move': r.randrange(2)})
        u = r.random()
        if u < .15:
            c['args'] = stage(c['args'], r.choice(STAGES))
        if u > .75:
            f = r.choice([f for f in c['files'] if not f[0].startswith('out/')])
            f[2] = modifiers(r, f[2]) if r.random() < .3 and f[0].endswith('.scad') else mutate(r, f[2])
            c['knobs']['max_steps'] = 30_000_000
        u = r.random()
        if u < .35:
            # the same failing system calls for both
            c['knobs'].update({'outbuf': r.choice(BUFS), 'inbuf': r.choice([0, 0, 1, 100, 4096])})
            c['knobs']['stdoutbuf'] = c['knobs']['outbuf']
            f = {'kind': r.choice(['write', 'write', 'read', 'open', 'close']), 'from': r.choice([0, 0, 1, 2, r.randrange(40), r.randrange(2000)]),
                 'count': r.choice([1, 1, 3, -1]), 'err': r.choice(['EIO', 'ENOSPC', 'EINTR', 'EACCES'])}
            if f['kind'] == 'write' and r.random() < .3:
                f = {'kind': 'write', 'path': c['out'], 'from': 0, 'count': -1, 'limit': r.choice([0, 1, 1000, r.randrange(20000)]), 'err': 'ENOSPC'}
            elif f['kind'] == 'write':
                f['path'] = c['out']
            c['faults'] = [f]
        return c

    def base_ok(self, base):
        return base.outcome in ('exit', 'abort')

    def variants(self, case, base, r):
        vs = [{'build': 'rel'}]
        for j in range(3):
            vs.append({'build': 'rel', 'knobs': {'seed': r.randrange(1 << 30), 'alloc_mode': r.randrange(4), 'fill': r.choice([0, 1, 0x7f, 0xa5, 0xff, 256]), 'move': r.randrange(2)}})
        n = max(1, base.h['allocs'])
        for j in range(2):
            vs.append({'build': 'rel', 'oom': 1, 'faults': [{'kind': 'alloc', 'from': r.choice([r.randrange(n), int(n * r.random() ** 3)]), 'count': r.choice([1, 1, 3, -1])}]})
        return vs

    @staticmethod
    def said(b):
        """the messages, without the source place of a panic, which only the build with assertions gives"""
        return re.sub(rb'(?m)^[^\n:]*\.[ch]:\d+: (?=Fatal Error: )', b'', b)

    def judge(self, case, base, var, x):
        if crashed(x):
            return Violation('crash', 'memory error without assertions: %s' % (x.msg or 'signal %d' % x.code))
        if x.outcome == 'exit' and x.code != 0 and not x.stderr.strip() and not case.get('faults'):
            return Violation('no-diagnosis', 'status %d without a message' % x.code)
        if var.get('oom'):
            if not x.ok or not base.ok:
                return None
        else:
            if base.ok != x.ok or base.outcome == 'exit' and base.code != x.code or x.outcome not in ('exit', 'abort'):
                return Violation('status', 'without assertions status %s %d instead of %s %d: %s' % (
                    x.outcome, x.code, base.outcome, base.code, x.msg or first_line(x.stderr)))
            if self.said(base.stderr) != self.said(x.stderr):
                return Violation('messages', 'without assertions other messages: %r instead of %r' % (x.stderr[-200:], base.stderr[-200:]))
        if base.ok:
            t = same(base, x, [case['out']])
            if t:
                return Violation('output', 'without assertions ' + t)
        return None


ALL = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C17, C27)}
from . import script          # noqa: E402
ALL['C16'] = script.C16
