"""Build the simulator against /repo's current working tree, outside /repo.

Variants differ in what uninitialised stack memory holds and in the
sanitizers; all run the same current sources:
  pat   gcc -O2, automatic variables pre-filled with a byte pattern
  zero  gcc -O2, automatic variables pre-filled with zeros
  raw   gcc -O0, automatic variables hold what the stack held (see stackfill in sim.c; a byte pattern
        leaves truth values false)
  asan  gcc -O1 -fsanitize=address
  rel   as the makefile's release mode: without assertions, gcc -O3
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HOB3L_REPO', '/repo')
OUT = os.environ.get('HOB3L_SIM_OUT', os.path.join(VERIF, 'out'))

BASE_FLAGS = ['-std=c11', '-U_FORTIFY_SOURCE', '-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE_SOURCE', '-w',
              '-fno-delete-null-pointer-checks', '-fwrapv', '-fno-strict-overflow',
              '-fno-omit-frame-pointer', '-fno-pie', '-g1', '-pipe',
              '-DHOB3L_SIM', '-Dmain=hob3l_main', '-fsanitize-coverage=trace-pc']
VARIANT = {
    'pat': ['-O2', '-ftrivial-auto-var-init=pattern'],
    'zero': ['-O2', '-ftrivial-auto-var-init=zero'],
    'raw': ['-O0'],
    'asan': ['-O1', '-fsanitize=address'],
    'rel': ['-O3', '-DNDEBUG', '-ftrivial-auto-var-init=pattern'],
}
LIBS = ['hob3lbase', 'hob3lmat', 'hob3lop', 'hob3l']


class BuildError(Exception):
    pass


def sources():
    """source lists as the makefiles give them"""
    res = []
    for lib in LIBS:
        mk = open(os.path.join(REPO, lib + '.mk')).read().replace('\\\n', ' ')
        m = re.search(r'^MOD_C\.lib%s\.a\s*:=(.*)$' % lib, mk, re.M)
        if not m:
            raise BuildError('no source list in %s.mk' % lib)
        res += m.group(1).split()
        # unconditional additions
        depth = 0
        for line in mk.splitlines():
            if re.match(r'\s*if(n?eq|n?def)\b', line):
                depth += 1
            elif re.match(r'\s*endif\b', line):
                depth -= 1
            elif depth == 0:
                m = re.match(r'MOD_C\.lib%s\.a\s*\+=(.*)$' % lib, line)
                if m:
                    res += m.group(1).split()
    res.append('hob3l/main.c')
    return list(dict.fromkeys(res))


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def tree_hash():
    h = hashlib.sha256()
    pats = ['src/**/*', 'include/**/*', '*.mk', 'Makefile', 'script/mk*']
    files = set()
    for p in pats:
        files.update(f for f in glob.glob(os.path.join(REPO, p), recursive=True) if os.path.isfile(f))
    files.update(f for f in glob.glob(os.path.join(VERIF, 'sim', '*')) if os.path.isfile(f))
    files.add(os.path.join(VERIF, 'dst', 'build.py'))
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def build_cmd():
    """the command of simulated script runs"""
    d = os.path.join(OUT, 'build-cmd')
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, 'cmd')
    run(['gcc', '-O1', '-w', '-o', o + '.%d' % os.getpid(), os.path.join(VERIF, 'sim', 'cmd.c')])
    os.rename(o + '.%d' % os.getpid(), o)
    return o


def build(variants=('pat',), jobs=None, log=None):
    """returns {variant: path of binary}"""
    jobs = jobs or os.cpu_count() or 4
    os.makedirs(OUT, exist_ok=True)
    th = tree_hash()
    res = {}
    todo = []
    for v in variants:
        if v == 'cmd':
            res[v] = build_cmd()
            continue
        d = os.path.join(OUT, 'build-' + v)
        binf = os.path.join(d, 'hsim')
        stamp = os.path.join(d, 'stamp')
        res[v] = binf
        if os.path.exists(binf) and os.path.exists(stamp) and open(stamp).read() == th:
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        todo.append((v, d, binf, stamp))
    if not todo:
        return res
    # generated includes, from the current sources by the current scripts
    gen = os.path.join(OUT, 'gen')
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen)
    for f in glob.glob(os.path.join(REPO, 'src/*/*.sieve')):
        o = os.path.join(gen, os.path.basename(f)[:-6] + '.inc')
        with open(o, 'w') as fo:
            p = subprocess.run(['perl', os.path.join(REPO, 'script/mksieve'), os.path.relpath(f, REPO)],
                               cwd=REPO, stdout=fo, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise BuildError('mksieve %s: %s' % (f, p.stderr))
    for f in glob.glob(os.path.join(REPO, 'src/*/*.switch')):
        o = os.path.join(gen, os.path.basename(f)[:-7] + '.inc')
        with open(o, 'w') as fo:
            p = subprocess.run(['perl', os.path.join(REPO, 'script/mkswitch'), os.path.relpath(f, REPO)],
                               cwd=REPO, stdout=fo, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise BuildError('mkswitch %s: %s' % (f, p.stderr))
    srcs = sources()
    names = open(os.path.join(VERIF, 'sim/redefine.txt')).read().split()
    redef = os.path.join(OUT, 'redef.syms')
    with open(redef, 'w') as f:
        for n in names:
            f.write('%s __wrap_%s\n' % (n, n))
    redefs = os.path.join(OUT, 'redef-str.syms')
    with open(redefs, 'w') as f:
        for n in names + open(os.path.join(VERIF, 'sim/redefine-str.txt')).read().split():
            f.write('%s __wrap_%s\n' % (n, n))
    tasks = []
    for v, d, binf, stamp in todo:
        for s in srcs:
            o = os.path.join(d, s.replace('/', '__')[:-2] + '.o')
            tasks.append((['gcc', '-c'] + BASE_FLAGS + VARIANT[v] +
                          ['-I' + os.path.join(REPO, 'include'), '-I' + gen,
                           os.path.join(REPO, 'src', s), '-o', o], o))
        san = ['-fsanitize=address', '-DSIM_ASAN'] if v == 'asan' else ['-DNDEBUG'] if v == 'rel' else []
        for s in ('sim.c', 'history.c', 'history_ord.c'):
            tasks.append((['gcc', '-c', '-O2', '-g1', '-fno-pie', '-w', '-I' + os.path.join(REPO, 'include'),
                           '-I' + os.path.join(VERIF, 'sim')] + san +
                          [os.path.join(VERIF, 'sim', s), '-o', os.path.join(d, 'SIM_' + s[:-2] + '.o')], None))

    def comp(t):
        try:
            run(t[0])
        except BuildError:
            if t[0][-1].endswith('hob3l__main.o'):
                # the layer phase changed so that the hook does not fit: no workers, but everything else
                run([a for a in t[0] if a != '-DHOB3L_SIM'])
            elif t[0][-1].endswith('SIM_history.o') or t[0][-1].endswith('SIM_history_ord.o'):
                # the interface of the containers changed: no histories, but everything else
                run([a.replace('/sim/history', '/sim/nohistory') if a.endswith('.c') else a for a in t[0]])
            else:
                raise
        if t[1]:
            run(['objcopy', '--redefine-syms=' + (redef if '-fsanitize=address' in t[0] else redefs), t[1]])
        elif 'SIM_history' in t[0][-1]:
            run(['objcopy', '--redefine-sym', '__assert_fail=__wrap___assert_fail', t[0][-1]])
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(comp, tasks))
    for v, d, binf, stamp in todo:
        san = ['-fsanitize=address', '-static-libasan'] if v == 'asan' else []
        run(['gcc', '-no-pie', '-o', binf] + san + sorted(glob.glob(os.path.join(d, '*.o'))) + ['-lm'])
        for o in glob.glob(os.path.join(d, '*.o')):
            os.unlink(o)
        with open(stamp, 'w') as f:
            f.write(th)
    return res


if __name__ == '__main__':
    print(build(sys.argv[1:] or ('pat', 'zero', 'raw', 'asan', 'rel')))
