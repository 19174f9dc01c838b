"""C16: the user script hob3l-js-copy-aux, run by the real shell as an unprivileged user in a scratch
directory; every command it calls is sim/cmd.c, which does the real thing or a planned fault."""
import hashlib
import html.parser
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import tempfile
import zlib

from . import build as B
from .core import HarnessError
from .harness import Inconclusive, Violation
from .props import Prop

CMDS = ('rm gzip mkdir cp cat sed dirname basename mv ln mktemp touch chmod tee install tr cut head tail grep egrep awk mawk gawk sort '
        'uniq printf echo test expr ls wc cmp diff env true false rmdir unlink readlink realpath dd od id date uname sh bash zcat gunzip '
        'find xargs sleep sync truncate stat seq paste').split()
GL = ('common.js', 'mat4.js', 'vec3.js')
NOBODY = 65534


class SPlan:
    """one run of the script, completely"""

    def __init__(self, file, cwd, state, faults, limit):
        self.args, self.cwd, self.state, self.faults = [file], cwd, state, faults
        self.knobs = {} if limit is None else {'limit': limit}

    def wire(self):
        m = hashlib.sha256()
        for k in sorted(self.state):
            m.update(repr((k, self.state[k])).encode())
        return json.dumps([self.args, self.cwd, self.faults, self.knobs, m.hexdigest()]).encode()


class SResult:
    def __init__(self, outcome, code, stderr, log, state):
        self.outcome, self.code, self.msg, self.stderr, self.log, self.state = outcome, code, '', stderr, log, state
        # which commands ran and what became of them; names of temporary files may differ
        self.events = b'\n'.join(b'%d %s' % (i, l.split(b'\x1f')[0]) for i, l in enumerate(log)) + b'\n'
        self.steps = len(log)

    def digest(self):
        m = hashlib.sha256(self.events)
        m.update(('%s %d' % (self.outcome, self.code)).encode())
        return m.hexdigest()[:32]


_user = None


def unprivileged(cwd):
    """whether a run can be another user's, without rights"""
    global _user
    if _user is None:
        try:
            _user = os.geteuid() == 0 and subprocess.run(['/bin/true'], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
            if _user:
                os.chown(cwd, NOBODY, NOBODY)
                os.chown(cwd, 0, 0)
        except (OSError, ValueError, subprocess.SubprocessError):
            _user = False
    return _user


class Box:
    """a scratch directory with the commands and the shared files"""

    def __init__(self, cmd):
        self.root = tempfile.mkdtemp(prefix='c16-')
        self.user = unprivileged(self.root)
        os.chmod(self.root, 0o755)
        os.mkdir(self.root + '/bin')
        shutil.copy(cmd, self.root + '/bin/.cmd')
        os.chmod(self.root + '/bin/.cmd', 0o755)
        for c in CMDS:
            if os.path.exists('/usr/bin/' + c) or os.path.exists('/bin/' + c):
                os.symlink('.cmd', self.root + '/bin/' + c)
        with open(os.path.join(B.REPO, 'script/hob3l-js-copy-aux.in'), 'rb') as f:
            self.script = f.read()
        with open(self.root + '/script', 'wb') as f:
            f.write(self.script)
        self.share = {}
        for p in ('js-hob3l.local.html',) + tuple('gl-matrix/' + g for g in GL):
            with open(os.path.join(B.REPO, 'share', p), 'rb') as f:
                self.share[p] = f.read()

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def put(self, top, state, when=10 ** 9):
        shutil.rmtree(top, ignore_errors=True)
        os.mkdir(top)
        late = []
        for p in sorted(state, key=lambda p: ('dflh'.index(state[p][0]), p)):
            k, mode, d = state[p]
            q = os.path.join(top, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if k == 'd':
                os.makedirs(q, exist_ok=True)
                late.append((q, mode))
            elif k == 'f':
                with open(q, 'wb') as f:
                    f.write(d)
                os.utime(q, (when, when))
                late.append((q, mode))
            elif k == 'l':
                os.symlink(d.decode(), q)
            elif k == 'h':
                os.link(os.path.join(top, d.decode()), q)
        if self.user:
            for a, ds, fs in os.walk(top):
                for n in [a] + [os.path.join(a, x) for x in ds + fs]:
                    os.chown(n, NOBODY, NOBODY, follow_symlinks=False)
        for q, mode in reversed(late):
            os.chmod(q, mode)

    def get(self, top):
        out = {}
        for a, ds, fs in os.walk(top):
            for x in ds:
                p = os.path.join(a, x)
                out[os.path.relpath(p, top)] = ('l', 0, os.readlink(p).encode()) if os.path.islink(p) else ('d', os.stat(p).st_mode & 0o777, b'')
            for x in fs:
                p = os.path.join(a, x)
                if os.path.islink(p):
                    out[os.path.relpath(p, top)] = ('l', 0, os.readlink(p).encode())
                elif os.path.isfile(p):
                    with open(p, 'rb') as f:
                        out[os.path.relpath(p, top)] = ('f', os.stat(p).st_mode & 0o777, f.read())
                else:
                    out[os.path.relpath(p, top)] = ('?', 0, b'')
        return out

    def run(self, cx, file, cwd, state=None, share=None, faults=(), limit=None, when=1000):
        """state None: go on with what is there"""
        r = self.root
        if state is not None:
            self.put(r + '/w', state, 10 ** 9 + when)
        if share is not None:
            self.put(r + '/share', share)
        self.put(r + '/tmp', {})
        for n in ('log', 'plan'):
            with open(r + '/' + n, 'w') as f:
                if n == 'plan':
                    f.write(''.join('%d %s %d\n' % (a, k, p) for a, k, p in faults))
        os.chmod(r + '/log', 0o666)
        os.chmod(r + '/tmp', 0o777)
        before = self.get(r + '/w')
        file = file.replace('@S', r)
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.user else {}

        def pre():
            os.umask(0o022)
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        env = {'PATH': r + '/bin', 'pkgdatadir': r + '/share', 'SIM_ROOT': r, 'SIM_LOG': r + '/log', 'SIM_PLAN': r + '/plan',
               'TMPDIR': r + '/tmp', 'LC_ALL': 'C', 'HOME': r + '/tmp'}
        p = subprocess.Popen(['/bin/sh', r + '/script', file], cwd=os.path.join(r, cwd), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, start_new_session=True, preexec_fn=pre, **kw)
        try:
            so, se = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Inconclusive('the script did not end')
        with open(r + '/log', 'rb') as f:
            log = f.read().split(b'\n')[:-1]
        if p.returncode in (98, 127) and not faults and not log:
            raise HarnessError('script does not start: %r' % se[-200:])
        crash = p.returncode == -signal.SIGKILL and any(k == 'crash' for a, k, q in faults)
        x = SResult('crash' if crash else 'exit', p.returncode, se.replace(r.encode(), b'@S'), log, self.get(r + '/w'))
        x.before = before
        x.share = self.get(r + '/share')
        plan = SPlan(file.replace(r, '@S'), cwd, state or {}, [list(f) for f in faults], limit)
        cx.n['runs'] += 1
        cx.n['runs_cmd'] += 1
        cx.steps += x.steps
        cx.outc[x.outcome] += 1
        for l in log:
            k = l.split(b' ')[0].decode()
            if k != 'call':
                cx.fired[k] += 1
                cx.n['runs_with_fault_' + k] += 1
        if limit is not None:
            cx.fired['file size limit'] += 1
        cx.traces.add(hashlib.sha1(x.events + b'%d' % p.returncode).digest()[:8])
        cx.scheds.add(hashlib.sha1(x.events).digest()[:8])
        if cx.trace_log is not None:
            cx.trace_log.append(('cmd', plan, x))
        return x


class Scripts(html.parser.HTMLParser):
    """the script files that a page loads"""

    def __init__(self):
        super().__init__()
        self.src = []

    def handle_starttag(self, tag, attrs):
        if tag == 'script' and dict(attrs).get('src') is not None:
            self.src.append(dict(attrs)['src'])


def page_scripts(d):
    s = Scripts()
    s.feed(d.decode('utf-8', 'replace'))
    s.close()
    return s.src


class C16(Prop):
    id = 'C16'
    builds = ('cmd',)
    quick = 480
    thorough = 12000
    chunk = 4
    rule = 'one case is one JavaScript file with one state of its directory, run without fault, again over its result, and under 6 (quick) to 14 (thorough) faults'
    real = 'the shell script, the shell, and the commands it calls'
    stub = 'which calls of commands fail, are killed, end early or are the last; the file size limit; the state of the directories; nobody\'s rights'
    time_unit = 'commands called by the script'

    NAMES = ['model', 'x', 'a b', 'a&b', 'a & b', 'p@q', "it's", 'a$b', '$HOME', 'a*b', '*', 'LOCAL', 'REMOTE', 'LOCAL house', 'js-hob3l', 'my-js-hob3l-2',
             'x.js', 'x.local', 'v1.2', 'a;b', 'a(b)', 'a`b', '~x', 'a=b', 'a,b', '[x]', 'a!b', 'gl-matrix', 'common', 'n', '--help', '-x', '-', '.hid', 'a  b', ' lead', 'trail ',
             'REMOTE --- x', 'a|b', 'a{b}', 'x^', 'x+y', '0', 'Größe', 'a~b', 'html', '&', '@', '&&', 'a/b'.replace('/', '_')]

    def gen(self, r, i, tier):
        name = r.choice(self.NAMES) if r.random() < 0.55 else ''.join(r.choice("abcXYZ019_-. &@$'*+=,;()[]{}^|~!") for _ in range(r.randint(1, 12)))
        # in a page, "&" begins a character only where a name of one follows
        name = re.sub('&(?=[a-zA-Z])', '&_', name) if name not in ('a&b',) else name
        if name in ('.', '..') or name.strip('.') == '':
            name = 'dots' + name
        dr = r.choice(['', '', 'd', 'd e', 'd/e', 'd.js', "d'e", 'd&e', 'd@e', '-d', '$d', '*'])
        size = r.choice([0, 1, 2, 100, 3000, 70000]) if r.random() < 0.8 else 400000
        k = r.randint(0, 1 << 30)
        form = r.choice(['rel', 'rel', 'abs', 'dot', 'up', 'slash'])
        n = 6 if tier == 'quick' else 14
        vs = []
        for j in range(n):
            u = r.random()
            if u < 0.62:
                kind = r.choice(['fail', 'missing', 'kill', 'partial', 'partial', 'cut', 'cut', 'crash', 'crash'])
                fs = [[r.randint(0, 1 << 20), kind, r.choice([0, 0, 1, 10, 100, 1000, 8192, 30000, 49000, 60000])]]
                if r.random() < 0.2:
                    fs.append([r.randint(0, 1 << 20), r.choice(['fail', 'missing', 'kill', 'partial', 'cut', 'crash']), r.choice([0, 1, 500])])
                vs.append({'faults': fs})
            elif u < 0.76:
                vs.append({'limit': r.choice([0, 1, 100, 4096, 10000, 20000, 40000, 49000, 49100, 70000, 390000]), 'faults': []})
            else:
                vs.append({'env': r.choice(['gz-dir', 'local-dir', 'page-dir', 'glm-file', 'ro-dir', 'no-file', 'dir-file', 'secret-file', 'no-template', 'secret-template',
                                            'dir-template', 'no-glm', 'secret-glm', 'common-dir', 'glm-ro', 'empty-name']), 'faults': []})
        old = r.choice(['none', 'none', 'long', 'short', 'ro', 'hard', 'sym', 'glm', 'long'])
        return {'name': name, 'dir': dr, 'size': size, 'key': k, 'form': form, 'old': old, 'cwd': r.choice(['w', 'w', 'tmp']) if form == 'abs' else 'w',
                'history': vs}

    @staticmethod
    def body(size, k):
        """a file that compresses by half"""
        out = bytearray()
        n = k
        while len(out) < size:
            out += b'// %d\n' % n + hashlib.sha256(b'%d' % n).digest()[:16]
            n += 1
        return bytes(out[:size])

    def state(self, case, share):
        d = case['dir'] + '/' if case['dir'] else ''
        N = d + case['name']
        st = {N + '.js': ('f', 0o644, self.body(case['size'], case['key'])), 'other.txt': ('f', 0o600, b'other\n'), d + 'x.html.bak': ('f', 0o644, b'old\n')}
        if case['dir']:
            st[case['dir']] = ('d', 0o755, b'')
        o = case['old']
        outs = [N + '.js.gz', N + '.local.html', N + '.html']
        for p in outs:
            if p in st:
                continue
            if o == 'long':
                st[p] = ('f', 0o644, b'older content\n' * 40000)
            elif o == 'short':
                st[p] = ('f', 0o644, b'x')
            elif o == 'ro':
                st[p] = ('f', 0o444, b'older\n' * 12000)
            elif o in ('hard', 'sym'):
                st['keep.' + p.rsplit('.', 1)[1] + '%d' % outs.index(p)] = ('f', 0o644, b'to keep\n' * 100)
                st[p] = ('h', 0, ('keep.' + p.rsplit('.', 1)[1] + '%d' % outs.index(p)).encode()) if o == 'hard' else (
                    'l', 0, ('../' * d.count('/') + 'keep.' + p.rsplit('.', 1)[1] + '%d' % outs.index(p)).encode())
        if o in ('glm', 'long'):
            st[d + 'gl-matrix'] = ('d', 0o755, b'')
            st[d + 'gl-matrix/mine.js'] = ('f', 0o644, b'mine')
            for g in GL:
                st[d + 'gl-matrix/' + g] = ('f', 0o644, b'older\n' * 20000)
        return st

    def spoil(self, env, case, st, sh):
        d = case['dir'] + '/' if case['dir'] else ''
        N = d + case['name']
        T = 'js-hob3l.local.html'

        def mk(p):
            st.pop(p, None)
            st[p] = ('d', 0o755, b'')
            st[p + '/in'] = ('f', 0o644, b'in')
        if env == 'gz-dir':
            mk(N + '.js.gz')
        elif env == 'local-dir':
            mk(N + '.local.html')
        elif env == 'page-dir':
            mk(N + '.html')
        elif env in ('glm-file', 'glm-ro', 'common-dir'):
            for p in [p for p in st if p.startswith(d + 'gl-matrix/')]:
                del st[p]
            st[d + 'gl-matrix'] = ('f', 0o644, b'not a directory') if env == 'glm-file' else ('d', 0o555 if env == 'glm-ro' else 0o755, b'')
            if env == 'common-dir':
                st[d + 'gl-matrix/common.js'] = ('d', 0o755, b'')
                st[d + 'gl-matrix/common.js/common.js'] = ('d', 0o755, b'')
        elif env == 'ro-dir' and case['dir']:
            st[case['dir']] = ('d', 0o555, b'')
        elif env == 'no-file':
            del st[N + '.js']
        elif env == 'dir-file':
            mk(N + '.js')
        elif env == 'secret-file':
            st[N + '.js'] = ('f', 0, st[N + '.js'][2])
        elif env == 'no-template':
            del sh[T]
        elif env == 'secret-template':
            sh[T] = ('f', 0, sh[T][2])
        elif env == 'dir-template':
            sh[T] = ('d', 0o755, b'')
        elif env == 'no-glm':
            del sh['gl-matrix/' + GL[case['key'] % 3]]
        elif env == 'secret-glm':
            sh['gl-matrix/' + GL[case['key'] % 3]] = ('f', 0, b'')
        else:
            return False
        return True

    def complete(self, case, x, share, pages):
        """None, or what is missing of the result"""
        d = case['dir'] + '/' if case['dir'] else ''
        N = d + case['name']
        for p in (N + '.js.gz', N + '.local.html', N + '.html') + tuple(d + 'gl-matrix/' + g for g in GL):
            if x.state.get(p, ('?',))[0] != 'f':
                return 'no-file', '%s does not exist' % p
        try:
            z = zlib.decompressobj(31)
            g = z.decompress(x.state[N + '.js.gz'][2])
            if not z.eof or z.unused_data or g != x.before[N + '.js'][2]:
                return 'gz', '%s.js.gz is not the file compressed' % N
        except zlib.error as e:
            return 'gz', '%s.js.gz: %s' % (N, e)
        for g in GL:
            if x.state[d + 'gl-matrix/' + g][2] != share['gl-matrix/' + g]:
                return 'gl-matrix', 'gl-matrix/%s is not the shared file' % g
        T = share['js-hob3l.local.html'].splitlines(True)
        marks = [i for i, l in enumerate(T) if b'js-hob3l' in l]
        head, tail = b''.join(T[:marks[0]]), b''.join(T[marks[-1] + 1:])
        lib = ['gl-matrix/' + g for g in GL]
        for p, want in ((N + '.local.html', case['name'] + '.js'), (N + '.html', case['name'] + '.js.gz')):
            b = x.state[p][2]
            if pages and b != pages[p]:
                return 'page', '%s differs from the page of the undisturbed run' % p
            if not b.startswith(head) or not b.endswith(tail) or len(b) < len(head) + len(tail):
                return 'page', '%s is not the whole page' % p
            s = page_scripts(b)
            if s != lib + [want]:
                return 'page-src', '%s loads %r instead of %r' % (p, s, lib + [want])
        return None

    def others(self, case, x):
        """None, or what the run did to files that are none of its business"""
        d = case['dir'] + '/' if case['dir'] else ''
        N = d + case['name']
        mine = {N + '.js.gz', N + '.local.html', N + '.html'} | {d + 'gl-matrix/' + g for g in GL}
        for l in x.log:
            if l.startswith(b'ESCAPE'):
                return 'escape', 'tried to change a file elsewhere: %s' % l.decode('latin1').replace('\x1f', ' ')
        for p, v in x.before.items():
            if p in mine or any(p.startswith(m + '/') for m in mine):
                continue
            if p not in x.state:
                return 'removed', 'removed ' + p
            if x.state[p] != v:
                return 'changed', 'changed ' + p
        if x.share != self._share:
            return 'share', 'changed the shared files'
        if x.outcome == 'exit' and x.code == 0:
            for p in x.state:
                if p not in x.before and p not in mine and p != d + 'gl-matrix':
                    return 'created', 'created ' + p
        return None

    def arg(self, case):
        p = (case['dir'] + '/' if case['dir'] else '') + case['name'] + '.js'
        f = case['form']
        if f == 'abs':
            return '@S/w/' + p
        if f == 'dot' or p.startswith('-'):
            return './' + p
        if f == 'up':
            return '../w/' + p
        if f == 'slash':
            return p.replace('/', '//') if case['dir'] else './/' + p
        return p

    def check(self, cx, case):
        box = Box(cx.bins['cmd'])
        try:
            return self._check(cx, case, box)
        finally:
            box.close()

    def _check(self, cx, case, box):
        share = box.share
        vs = [case['var']] if case.get('var') else case['history']

        def sh():
            return {p: ('f', 0o644, v) for p, v in share.items()}
        arg = self.arg(case)
        when = 100000 if case['key'] % 5 < 3 else -100000      # older or newer than the shared files
        st0 = self.state(case, share)

        def bad(cls, text, var=None):
            c = dict(case)
            c['var'] = var or {'faults': []}
            return Violation(cls, text, c)

        def judge(x, var, what, pages=None, must=False):
            self._share = share0
            o = self.others(case, x)
            if o:
                return bad('other-' + o[0], '%s, %s: %s' % (arg, what, o[1]), var)
            if x.outcome == 'crash':
                return None
            if x.code == 0:
                c = self.complete(case, x, share, pages)
                if c:
                    return bad('incomplete-' + c[0], '%s, %s: status 0, but %s' % (arg, what, c[1]), var)
            elif must:
                return bad('refused', '%s, %s: status %d: %s' % (arg, what, x.code, x.stderr[-300:].decode('latin1')), var)
            elif not x.stderr and not any(f[1] in ('kill', 'cut') for f in (var or {}).get('faults', [])):
                return bad('silent', '%s, %s: status %d without a message' % (arg, what, x.code), var)
            return None

        # without fault, and again over the result
        box.put(box.root + '/share', sh())
        share0 = box.get(box.root + '/share')
        base = box.run(cx, arg, case['cwd'], st0, sh(), when=when)
        v = judge(base, None, 'no fault, directory with %s' % case['old'], must=True)
        if v:
            return v
        d = case['dir'] + '/' if case['dir'] else ''
        N = d + case['name']
        pages = {p: base.state[p][2] for p in (N + '.local.html', N + '.html')}
        again = box.run(cx, arg, case['cwd'])
        v = judge(again, None, 'again over its result', pages, must=True)
        if v:
            return v
        cx.probe['complete results of fault-free runs'] += 2
        # calls that ask for nothing to be done
        for a, want in (('--help', True), ('', False), ('--unknown', False), (arg + '.none', False))[case['key'] % 4:][:1]:
            z = box.run(cx, a, 'w', st0, sh(), when=when)
            if z.state != z.before:
                return bad('option', 'argument %r changed files' % a)
            if (z.code == 0) != want:
                return bad('option', 'argument %r: status %d' % (a, z.code))
            if not want and not z.stderr:
                return bad('option', 'argument %r: status %d without a message' % (a, z.code))
        ncalls = len(base.log)
        for var in vs:
            st, share1 = self.state(case, share), sh()
            what = json.dumps(var)
            if var.get('env'):
                if not self.spoil(var['env'], case, st, share1):
                    continue
                if not box.user and 'secret' in var['env'] or var['env'] in ('ro-dir', 'glm-ro') and not box.user:
                    continue
            faults = [[a % ncalls, k, p] for a, k, p in var['faults']]
            faults = [f for i, f in enumerate(faults) if f[0] not in [g[0] for g in faults[:i]]]
            box.put(box.root + '/share', share1)
            share0 = box.get(box.root + '/share')
            x = box.run(cx, arg, case['cwd'], st, share1, faults, var.get('limit'), when)
            hard = var.get('env') and var['env'] not in ('glm-ro', 'common-dir')
            what = 'fault ' + ', '.join('%s at call %d (%s)' % (k, a, base.log[a].split(b'\x1f')[0].decode().split(' ')[-1]) for a, k, p in faults) if faults else what
            if hard and x.outcome == 'exit' and x.code == 0 and (N + '.js') not in x.before:
                return bad('incomplete-no-input', '%s, %s: status 0 without an input' % (arg, what), var)
            if hard and x.outcome == 'exit' and x.code == 0 and x.before[N + '.js'][0] != 'f':
                return bad('incomplete-no-input', '%s, %s: status 0 without an input file' % (arg, what), var)
            v = judge(x, var, what, pages)
            if v:
                return v
            cx.probe['crashed' if x.outcome == 'crash' else 'status 0, complete' if x.code == 0 else 'status not 0'] += 1
            # once it is over: complete again
            if not var.get('env'):
                box.put(box.root + '/share', sh())
                share0 = box.get(box.root + '/share')
                y = box.run(cx, arg, case['cwd'])
                v = judge(y, var, 'again after ' + what, pages, must=True)
                if v:
                    return v
                cx.probe['complete results after a fault'] += 1
        return None
