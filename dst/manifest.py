#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DS = 'deterministic simulation with fault injection, seeded search: '
SAMP = 'Sampled, not exhaustive: a clean run is evidence, not proof. '
TRUST = 'Trusts gcc, glibc stdio and printf, and the in-memory disk and allocator of sim/sim.c.'
T = {
    'C01': ('failing, short, limited writes, flushes, opens and closes of the output against the fault-free run',
            'Every output format and dump mode, file and stdout; faults at sampled positions of each run.'),
    'C02': ('open and read errors on trees of input files against the fault-free run',
            'Errors at every kind of position (first, last, middle block), on main, included and imported files.'),
    'C03': ('failing allocations at sampled indices, heap checked at every free and at the end, address-sanitizer build',
            'Single, burst and persistent failures and memory limits; with and without address sanitizer.'),
    'C04': ('runs in differing simulated memory, stack, clock, process id and environment compared byte for byte',
            'All sources of nondeterminism hob3l can reach are simulated; reads of stack garbage are forced by three builds.'),
    'C05': ('preemptive seeded schedules of simulated layer workers, layer orders, and layers alone against the whole run',
            'Uses the HOB3L_SIM hook in main.c; switches at basic-block granularity; without the hook only layers alone.'),
    'C06': ('crash at seeded steps with torn last write, prefix oracle, reimport of the remains',
            'Crash points over the whole run, biased to file operations.'),
    'C07': ('stored-byte corruption and truncation of input files, address-sanitizer and plain builds, step budget',
            'Corruption of generated and corpus files; termination is judged by a step budget proportional to the size.'),
    'C08': ('faults and damage at known places of file trees under varying placement; named place compared with the known one',
            'Only the first error per run and only models that are accepted without the damage are judged.'),
    'C09': ('short transfers, buffer sizes and block-boundary shifts against the undivided delivery', 'Metamorphic comparison with the undisturbed run.'),
    'C10': ('recorded file operations of faulty and fault-free runs against a reference resolver of file names', 'Decoy files, moved trees, absolute references.'),
    'C11': ('failing and short writes of standard error, verbosity variants, against the undisturbed run', 'Output bytes and status are compared; texts are not.'),
    'C12': ('seeded histories of container operations under adversarial allocation and I/O faults against a reference model',
            'Direct histories on vectors, strings, string and file streams, checked operation by operation.'),
    'C13': ('seeded histories of pool operations with failing system allocations against a shadow model', 'Zeroing, alignment, disjointness, stability checked after every operation.'),
    'C14': ('crash or fault, then restart over the remains, against a first run', 'Sequences of up to several killed or failed runs.'),
    'C15': ('simulated allocator and descriptor accounting over runs of growing layer count', 'Growth per layer bounded by that of the result; descriptors exactly.'),
    'C16': ('failing, missing, killed and cut-off commands, crash and rerun, file size limit and spoiled directories under the user script, against the undisturbed run',
            'The script runs in the real shell as an unprivileged user; each command it calls is a simulated one that does the real thing or the fault.'),
    'C17': ('the same seeded executions, with the same failing system calls, in the builds with and without assertions, compared',
            'The release build of the simulator is compared with the default one, run by run.'),
    'C27': ('seeded histories of operations on trees, heaps and lists, with failing allocations where there are any, against plain sequences',
            'Order, links, heights, cached extremes, augmentation and returned elements checked after every operation.'),
}
NA = {
    'C20': 'pure function of model and options: which point set the boolean operation yields involves no schedule, clock, fault or I/O',
    'C21': 'pure function of the model: the geometry of the triangles involves no schedule, clock, fault or I/O (completeness of the file is C01 and C06)',
    'C22': 'pure function of a polygon',
    'C23': 'pure arithmetic on coordinates',
    'C24': 'pure function of the program text: the meaning of the language involves no fault or interleaving',
    'C25': 'pure function of the program text; robustness against stored-byte damage is C07',
    'C26': 'pure function of the program text: composition of two runs without fault or schedule',
    'C28': 'pure conversions of text',
}


def main():
    hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE, text=True).stdout
    hooks = [l.split()[0] for l in hook.splitlines() if ' sim: ' in l]
    if not hooks:
        hooks = json.load(open(os.path.join(V, 'MANIFEST.json')))['hooks']['source_commits']
    m = {'version': 1, 'setup_cmd': 'python3 dst/build.py',
         'hooks': {'guard': 'HOB3L_SIM', 'enable': '-DHOB3L_SIM (dst/build.py compiles /repo\'s sources with it into /verif/out)', 'source_commits': hooks},
         'checks': [{'property': p, 'quick_cmd': 'python3 dst/run.py %s --tier quick' % p, 'thorough_cmd': 'python3 dst/run.py %s --tier thorough' % p,
                     'technique': DS + t, 'level': 'exploration', 'level_note': SAMP + n + ' ' + TRUST} for p, (t, n) in T.items()],
         'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
         'notes': 'Replay a violation with: python3 dst/run.py --replay FILE. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
