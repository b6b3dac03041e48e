#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]  - builds the harness from /repo's
working tree, runs the generated cases of a property, writes evidence/PROPERTY.json.
check.py --build  - builds every harness."""
import os, sys, json, subprocess, glob, time, hashlib, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', HERE)      # development only: runs against mutants write elsewhere
BUILD = os.path.join(OUT, 'build')

ALLOC = ['-D%s_%s=trk_%s' % (p, n.upper(), n) for p in ('RAII', 'ZE')
         for n in ('malloc', 'free', 'realloc', 'calloc', 'memalign')]
COMMON = ['-D_GNU_SOURCE', '-include', 'stdlib.h', '-include', 'malloc.h', '-include', 'stdbool.h',
          '-include', os.path.join(HERE, 'engine/trk.h'), '-DC_API=extern', '-w', '-g', '-fPIC',
          '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'engine'),
          '-I' + os.path.join(HERE, 'harness')]
INLINE = '-DFORCEINLINE=inline __attribute__((always_inline))'
VARIANTS = {
    # as the project's tests are built
    'debug': ['-O3', '-fomit-frame-pointer', '-DUSE_DEBUG'],
    # assertions and diagnostics off
    'release': ['-O2'],
    # no inlining across the library's functions, frames kept
    'plain': ['-O0', '-DUSE_DEBUG'],
    # with the race detector: accesses that nothing orders fail a case in whatever order they came
    'tsan': ['-O1', '-DUSE_DEBUG', '-fsanitize=thread'],
}

# property -> (harness, extra flags, [(variant, quick cases, thorough cases)])
CHECKS = {}
exec(open(os.path.join(HERE, 'checks.conf')).read())


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + r.stdout[-8000:])
        raise SystemExit(3)


def build(harness, variant):
    """Compiles the library from the working tree, and the harness; returns the program."""
    flags = VARIANTS[variant]
    extra = HARNESS.get(harness, [])
    final = os.path.join(BUILD, '%s.%s' % (harness, variant))
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='%s.%s.' % (harness, variant), dir=BUILD)
    try:
        jobs, objs = [], []
        lib = sorted(glob.glob(os.path.join(REPO, 'src/*.c')))
        lib = [s for s in lib if os.path.basename(s) not in ('rpmalloc.c', 'cthread.c')]
        for s in lib:
            o = os.path.join(d, 'lib_' + os.path.basename(s)[:-2] + '.o')
            jobs.append(['gcc', '-std=gnu90'] + flags + COMMON + ALLOC + [INLINE] + extra + ['-c', s, '-o', o])
            objs.append(o)
        mine = [os.path.join(HERE, 'harness', harness + '.c'), os.path.join(HERE, 'harness/stubs.c')]
        mine += [os.path.join(HERE, 'harness', f) for f in PARTS.get(harness, [])]
        for s in mine:
            o = os.path.join(d, os.path.basename(s)[:-2] + '.o')
            jobs.append(['gcc', '-std=gnu11', '-fgnu89-inline'] + flags + COMMON + ALLOC + [INLINE, '-DRAII_INLINE='] + extra + ['-c', s, '-o', o])
            objs.append(o)
        for s in ('eng.c', 'trk.c'):
            o = os.path.join(d, s[:-2] + '.o')
            jobs.append(['gcc', '-std=gnu11', '-O2', '-g', '-w', '-DENG_VARIANT="%s"' % variant,
                         '-I' + os.path.join(HERE, 'engine'), '-c', os.path.join(HERE, 'engine', s), '-o', o])
            objs.append(o)
        procs = []
        err = None
        for j in jobs:
            procs.append((j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for j, p in procs:
            out, _ = p.communicate()
            if p.returncode and not err:
                err = ' '.join(j) + '\n' + out[-8000:]
        if err:
            sys.stderr.write(err)
            raise SystemExit(3)
        exe = os.path.join(d, 'x')
        sh(['gcc'] + [f for f in flags if f.startswith('-fsan')] + objs + ['-rdynamic', '-lpthread', '-lm', '-o', exe])
        os.replace(exe, final)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return final


def starts(exe, pid):
    """Whether the race detector can run here at all (it may not get the address space it wants)."""
    r = subprocess.run([exe, '--prop', pid, '--selftest', '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 0 and b'selftest ok' in r.stdout


def known_findings(pid):
    """(fixed or known entries are plain text; `known:` ones name the failing input)"""
    path = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                out.append(line.split(' ', 2)[2].strip())
    return out


def main():
    if sys.argv[1:] == ['--build']:
        for h in sorted({c[0] for c in CHECKS.values()}):
            for v in sorted({v for c in CHECKS.values() if c[0] == h for v, _, _ in c[1]}):
                build(h, v)
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = args.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    harness, runs = CHECKS[pid][:2]
    t0 = time.time()
    if replay:
        variant = next(l.split()[1] for l in open(replay) if l.startswith('variant '))
        return subprocess.run([build(harness, variant), '--prop', pid, '--replay', replay]).returncode
    limit = 700.0 if tier == 'quick' else 2 * 3600.0
    results, violation, skipped = [], None, []
    workers = max(2, min(8, os.cpu_count() or 8))
    for variant, quick, thorough in runs:
        cases = quick if tier == 'quick' else thorough
        if not cases:
            continue
        exe = build(harness, variant)
        out = os.path.join(BUILD, '%s.%s.%d.json' % (pid, variant, os.getpid()))
        rep = os.path.join(BUILD, 'replay-%s-%s.txt' % (pid, variant))
        left = limit - (time.time() - t0)
        if variant == 'tsan' and not starts(exe, pid):
            skipped.append('the build with the race detector does not start in this environment')
            continue
        r = subprocess.run([exe, '--prop', pid, '--seed', str(seed), '--cases', str(cases), '--workers', str(workers),
                            '--out', out, '--replay-out', rep, '--tier', tier, '--max-wall', '%.0f' % max(20, left / 2)])
        if r.returncode not in (0, 1):
            sys.stderr.write('%s: the harness ended with status %d\n' % (pid, r.returncode))
            return 3
        res = json.load(open(out))
        os.remove(out)
        results.append(res)
        if res['violation'] is not None:
            violation = (rep, res['violation'])
            break
    labels = {}
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for r in results:
        samples += r['samples'][:3]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL.get(pid, 'exploration'),
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in results),
            'rule': results[0]['rule'],
            'samples': samples[:6] or ['(none: the run stopped at a violation)'],
            'cases': sum(r['cases'] for r in results),
            'nontrivial_cases': sum(r['nontrivial'] for r in results),
            'distribution': labels,
            'builds': {r['variant']: r['evaluations'] for r in results},
            'failures_not_reproduced': sum(r['unreproduced'] for r in results),
        },
        'assumptions': ASSUME.get(harness, []) + skipped,
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if violation:
        print('failure: ' + violation[1].replace('\n', ' '))
        print('VIOLATION property=%s replay=%s' % (pid, violation[0]))
        return 1
    print('%s: %d cases held (%d distinct non-trivial), %.1f s' % (pid, ev['coverage']['evaluations'],
          ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
