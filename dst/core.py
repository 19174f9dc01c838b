"""Plans, the zygote client, results, replay files."""
import base64
import errno as E
import hashlib
import json
import os
import resource
import subprocess

KIND = {'open': 0, 'read': 1, 'write': 2, 'close': 3, 'alloc': 4, 'sync': 5, 'rename': 6, 'unlink': 7}
KNAME = ['open', 'read', 'write', 'close', 'alloc', 'sync', 'rename', 'unlink', 'stat']
OUTCOME = ['none', 'exit', 'abort', 'assert', 'crash', 'steps', 'signal', 'mem', 'check', 'harness']


class HarnessError(Exception):
    pass


class Plan:
    """One simulated execution, completely."""
    __slots__ = ('args', 'files', 'knobs', 'faults', 'hist')

    def __init__(self, args=(), files=(), knobs=None, faults=(), hist=None):
        self.args = list(args)
        self.files = [list(f) for f in files]      # [path, kind, bytes]; kind 1 file, 2 dir, 3 unreadable
        self.knobs = dict(knobs or {})
        self.faults = [dict(f) for f in faults]
        self.hist = hist                           # None or (name, bytes)

    def copy(self, **kw):
        p = Plan(self.args, self.files, self.knobs, self.faults, self.hist)
        for k, v in kw.items():
            if k == 'knobs':
                p.knobs.update(v)
            else:
                setattr(p, k, v)
        return p

    def wire(self):
        o = []
        for a in ['hob3l'] + self.args:
            b = a if isinstance(a, bytes) else a.encode()
            o.append(b'A %d\n' % len(b) + b)
        for path, kind, data in self.files:
            o.append(('F %d %d %s\n' % (kind, len(data), path)).encode() + data)
        for k, v in self.knobs.items():
            o.append(('K %s %d\n' % (k, v)).encode())
        for f in self.faults:
            err = f.get('err', 0)
            if isinstance(err, str):
                err = getattr(E, err)
            o.append(('X %d %d %d %d %d %d %d %s\n' % (
                KIND[f['kind']], f.get('from', 0), f.get('count', 1), err, f.get('short', -1),
                1 if f.get('eof') else 0, f.get('limit', -1), f.get('path') or '*')).encode())
        if self.hist:
            o.append(('H %s %d\n' % (self.hist[0], len(self.hist[1]))).encode() + self.hist[1])
        o.append(b'.\n')
        return b''.join(o)

    def to_json(self):
        def enc(b):
            try:
                t = b.decode('ascii')
                if all(c in '\n\t' or ' ' <= c <= '~' for c in t):
                    return {'text': t}
            except UnicodeDecodeError:
                pass
            return {'b64': base64.b64encode(b).decode()}
        return {'args': self.args, 'files': [[p, k, enc(d)] for p, k, d in self.files],
                'knobs': self.knobs, 'faults': self.faults,
                'hist': [self.hist[0], base64.b64encode(self.hist[1]).decode()] if self.hist else None}

    @staticmethod
    def from_json(j):
        def dec(e):
            return e['text'].encode() if 'text' in e else base64.b64decode(e['b64'])
        return Plan(j['args'], [[p, k, dec(d)] for p, k, d in j['files']], j['knobs'], j['faults'],
                    (j['hist'][0], base64.b64decode(j['hist'][1])) if j.get('hist') else None)


class Result:
    def __init__(self, head, msg, events, files):
        self.h = head
        self.outcome = OUTCOME[head['outcome']]
        self.code = head['code']
        self.msg = msg
        self.events = events
        self.files = files          # path -> (kind, flags, bytes or None)
        self.steps = head['steps']

    def data(self, path):
        f = self.files.get(path)
        return None if f is None else f[2]

    @property
    def stdout(self):
        return self.data('<stdout>') or b''

    @property
    def stderr(self):
        return self.data('<stderr>') or b''

    @property
    def ok(self):
        return self.outcome == 'exit' and self.code == 0

    def ops(self, k):
        return self.h['ops'][KIND[k]]

    def fired(self, k=None):
        return sum(self.h['fired']) if k is None else self.h['fired'][KIND[k]]

    def digest(self, with_events=True):
        """hash of everything observable in the run"""
        m = hashlib.sha256()
        m.update(('%s %d %d %s' % (self.outcome, self.code, self.steps, self.msg)).encode())
        if with_events:
            m.update(self.events)
        for p in sorted(self.files):
            k, fl, d = self.files[p]
            m.update(('%s %d %d' % (p, k, fl)).encode())
            if d is not None:
                m.update(d)
        return m.hexdigest()[:32]

    def describe(self):
        return 'outcome=%s code=%d %s stderr=%r' % (self.outcome, self.code, self.msg, self.stderr[-300:])


class Sim:
    """client of one zygote"""

    def __init__(self, binary):
        self.binary = binary
        self.p = None
        self.runs = 0
        self.steps = 0

    def _start(self):
        env = {'PATH': '/usr/bin:/bin', 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:'
               'allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:'
               'malloc_context_size=3:quarantine_size_mb=64:max_allocation_size_mb=3000'}
        # the usual stack, more where the sanitizer's frames are larger
        stack = (256 if 'asan' in self.binary else 8) << 20

        def limits():
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            resource.setrlimit(resource.RLIMIT_STACK, (stack if hard < 0 else min(stack, hard), hard))
        self.p = subprocess.Popen([self.binary], preexec_fn=limits, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, bufsize=1 << 20)

    def _read(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise HarnessError('zygote died')
        return b

    def run(self, plan):
        if self.p is None:
            self._start()
        try:
            self.p.stdin.write(plan.wire())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise HarnessError('zygote died')
            head = json.loads(line)
            msg = self._read(head['msglen']).decode('latin1')
            ev = self._read(head['evlen'])
            files = {}
            for _ in range(head['nfiles']):
                k, fl, ln, path = self.p.stdout.readline().decode('latin1').rstrip('\n').split(' ', 3)
                ln = int(ln)
                files[path] = (int(k), int(fl), self._read(ln) if ln >= 0 else None)
        except (BrokenPipeError, json.JSONDecodeError) as e:
            raise HarnessError('zygote: %r' % e)
        self.runs += 1
        self.steps += head['steps']
        r = Result(head, msg, ev, files)
        if r.outcome in ('harness', 'none'):
            raise HarnessError('simulator: ' + r.describe())
        return r

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=10)
            except Exception:
                self.p.kill()
            self.p = None
