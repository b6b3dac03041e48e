#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool; no check uses it).

mutate.py run FILE[:FROM-TO] ...  - for each small change of a line (of /repo's files) that compiles to other code and
that the repository's stable tests do not see, runs the checks concerned (debug build, a twentieth of the cases of the quick
tier) until one fails; writes the others to /tmp/mw/survivors.json
mutate.py full          - runs the quick checks in full on those, keeps what survives in /tmp/mw/left.json

Everything happens in copies of /repo under /tmp/mw."""
import json, os, random, re, subprocess, sys, shutil, glob, threading, queue, time, hashlib

W = '/tmp/mw'
N = int(os.environ.get('MUT_JOBS', '4'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['VERIF_REPO'] = W + '/none'
sys.path.insert(0, VERIF)

ORDER = {
    'src/swar.c': 'C12 C13 C14 C15 C16 C17 C18',
    'src/arena.c': 'C11 C10',
    'src/future.c': 'C20 C21 C10',
    'src/raii.c': 'C01 C02 C17 C18 C19 C03 C05 C06 C08 C09 C07 C10 C04 C20 C21 C22 C11',
    'src/except.c': 'C06 C08 C07 C04 C03 C09 C25 C05 C22 C10 C20 C21',
    'include/exception.h': 'C06 C08 C07 C04 C03 C09 C25 C05 C22 C10 C20 C21',
    'include/raii.h': 'C04 C01 C02 C03 C25 C05 C06 C08 C19 C17 C20 C22 C10 C11',
    'include/cthread.h': 'C24 C20 C22',
    'include/catomic.h': 'C23 C20 C11 C21',
    'include/swar.h': 'C12 C13 C14 C15 C16',
    'include/rtypes.h': 'C03 C19 C20',
}

# parts of the large files -> the checks to ask first
PARTS = {
    'src/raii.c': [(90, 'C01 C02 C10'), (142, 'C03 C01 C09'), (215, 'C17 C10 C01'), (400, 'C01 C02 C10 C11 C04'),
                   (540, 'C01 C02 C03 C05 C04 C09'), (578, 'C25 C04 C05 C22'), (780, 'C19 C10 C17')],
    'src/except.c': [(748, 'C25 C06 C07 C08 C09 C05 C03')],
    'include/exception.h': [(486, 'C25 C06 C07 C08 C09 C05')],
    'include/raii.h': [(686, 'C01 C03 C04 C05 C25')],
    'src/future.c': [(357, 'C20 C21')],
}


def order(path, no):
    for hi, props in [] if os.environ.get('MUT_TRIG') else PARTS.get(path, []):
        if no <= hi:
            return props.split()
    return ORDER[path].split()


OPS = [
    (r'==', ['!=']), (r'!=', ['==']), (r'<=', ['<', '>']), (r'>=', ['>', '<']),
    (r'(?<![<\-=])<(?![<=])', ['<=', '>=']), (r'(?<![>\-=])>(?![>=])', ['>=', '<=']),
    (r'&&', ['||']), (r'\|\|', ['&&']),
    (r'\+\+', ['--']), (r'--', ['++']),
    (r'(?<=[\w\)\]] )\+(?= )', ['-']), (r'(?<=[\w\)\]] )-(?= )', ['+']),
    (r'(?<=[\w\)\]] )\*(?= )', ['+']), (r'\+=', ['-=']), (r'-=', ['+=']),
    (r'<<', ['>>']), (r'>>', ['<<']), (r'(?<=[\w\)\]] )&(?= )', ['|']), (r'(?<=[\w\)\]] )\|(?= )', ['&']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\bNULL\b', ['(void *)1']),
    (r'!(?=[\w\(])', ['']), (r'~(?=[\w\(])', ['']),
    (r'(?<![\w.])(?:0x[0-9a-fA-F]+|\d+)(?![\w.])', ['N+1', 'N-1', 'Z']),
    (r'\bbreak;', [';']), (r'\bcontinue;', [';']),
    (r'\bif \((?=\w)', ['if (!']),
    (r'\bmemcpy\b', ['(void)sizeof']),
    (r'\b(?:i|n|len|size|count)\b(?=[\)\],;])', ['(@ + 1)', '(@ - 1)']),
]


def mutants(path, lo, hi):
    trig = os.environ.get('MUT_TRIG')
    for no, old, new in all_mutants(path, lo, hi):
        if not trig:
            yield no, old, new
            continue
        # only every MUT_TRIG-th time: the statement left out, the condition turned round
        count = '({ static int mk_; ++mk_ %% %s == 0; })' % trig
        m = re.match(r'(\s*(?:\}? ?else )?(?:if|while)) \(0 && (\(.*\))\)( \{)?( \\)?$', new)
        if m:
            yield no, old, '%s (%s ^ !!%s)%s%s' % (m[1], count, m[2], m[3] or '', m[4] or '')
        elif new.strip().rstrip('\\').strip() == ';':
            bs = ' \\' if old.rstrip().endswith('\\') else ''
            yield no, old, '{ if (%s) ; else %s }%s' % (count, old.rstrip().rstrip('\\').strip(), bs)
        elif new.strip().rstrip('\\').strip() == 'return 0;':
            bs = ' \\' if old.rstrip().endswith('\\') else ''
            yield no, old, '{ if (%s) return 0; %s }%s' % (count, old.rstrip().rstrip('\\').strip(), bs)


def all_mutants(path, lo, hi):
    text = open('/repo/' + path).read().split('\n')
    comment = False
    for no, line in enumerate(text, 1):
        s = line.strip()
        if '/*' in s and '*/' not in s:
            comment = True
            continue
        if comment:
            if '*/' in s:
                comment = False
            continue
        if not (lo <= no <= hi) or not s or s.startswith(('//', '#', '/*', '*', '}')) and '#define' not in s:
            if not (lo <= no <= hi) or not s.startswith('#define'):
                continue
        code = re.sub(r'/\*.*?\*/', lambda m: ' ' * len(m[0]), line)
        code = re.sub(r'//.*', lambda m: ' ' * len(m[0]), code)
        mask = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + '_' * (len(m[0]) - 2) + '"', code)
        mask = re.sub(r"'(?:\\.|[^'\\])'", lambda m: "'" + '_' * (len(m[0]) - 2) + "'", mask)
        seen = set()
        start = 0
        if s.startswith('#define'):
            m = re.match(r'\s*#define\s+\w+(\([^)]*\))?', mask)
            start = m.end()
        for pat, reps in OPS:
            for m in re.finditer(pat, mask):
                if m.start() < start:
                    continue
                for r in reps:
                    t = m[0]
                    if r in ('N+1', 'N-1', 'Z'):
                        v = int(t, 0) if not (t.startswith('0') and t.isdigit() and len(t) > 1) else int(t, 8)
                        r = {'N+1': str(v + 1), 'N-1': str(v - 1), 'Z': '0'}[r]
                        if r == t:
                            continue
                    r = r.replace('@', t)
                    new = line[:m.start()] + r + line[m.end():]
                    if new != line and new not in seen:
                        seen.add(new)
                        yield no, line, new
        # statement removed
        bs = ' \\' if line.rstrip().endswith('\\') else ''
        body = line.rstrip().rstrip('\\').rstrip()
        if body.endswith(';') and start == 0:
            ind = line[:len(line) - len(line.lstrip())]
            if not re.match(r'\s*(?:[\w\*]+\s+)+\**\w+(\[[^\]]*\])?(\s*,\s*\**\w+)*\s*;', body) or re.match(r'\s*(return|goto|break|continue)\b', body):
                if re.match(r'\s*return\b', body):
                    m = re.match(r'\s*return\s+(.+);', body)
                    if m and m[1].strip() not in ('NULL', '0', 'false'):
                        yield no, line, ind + 'return 0;' + bs
                elif not re.match(r'\s*(?:const |static |unsigned |struct )*\w+\s+\**\w+\s*=', body):
                    yield no, line, ind + ';' + bs
        m = re.match(r'(\s*(?:\}? ?else )?)(if|while) \((.*)\)( \{)?$', body)
        if m and start == 0:
            yield no, line, m[1] + m[2] + ' (0 && (' + m[3] + '))' + (m[4] or '') + bs
            if m[2] == 'if':
                yield no, line, m[1] + m[2] + ' (1 || (' + m[3] + '))' + (m[4] or '') + bs


def sh(cmd, timeout=120, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                         start_new_session=True, **k)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ''


RUNTESTS = open('/opt/vp/runtests.py').read().replace('"60"', '"8"')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
import check  # noqa: E402


class Worker:
    def __init__(self, k):
        self.k = k
        self.d = '%s/w%d' % (W, k)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.repo = self.d + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', self.repo])
        self.make(['tests'])
        self.objs = {}      # (harness, variant) -> {src: (cmd, obj)}
        open(self.d + '/rt.py', 'w').write(RUNTESTS)

    def make(self, targets):
        return sh(['make', '-f', '/opt/vp/Makefile', '-j4', '-s', '--no-print-directory', 'R=' + self.repo] + targets)

    def cmds(self, harness, variant):
        flags = check.VARIANTS[variant]
        common = [c.replace(check.REPO, self.repo) for c in check.COMMON]
        d = '%s/obj.%s.%s' % (self.d, harness, variant)
        os.makedirs(d, exist_ok=True)
        jobs = {}
        for s in sorted(glob.glob(self.repo + '/src/*.c')):
            o = d + '/lib_' + os.path.basename(s)[:-2] + '.o'
            jobs[s] = (['gcc', '-std=gnu90'] + flags + common + check.ALLOC + [check.INLINE] + ['-c', s, '-o', o], o)
        for f in [harness + '.c', 'stubs.c'] + check.PARTS.get(harness, []):
            s = VERIF + '/harness/' + f
            o = d + '/' + f[:-2] + '.o'
            jobs[s] = (['gcc', '-std=gnu11', '-fgnu89-inline'] + flags + common + check.ALLOC +
                       [check.INLINE, '-DRAII_INLINE='] + check.HARNESS.get(harness, []) + ['-c', s, '-o', o], o)
        for f in ('eng.c', 'trk.c'):
            s = VERIF + '/engine/' + f
            o = d + '/' + f[:-2] + '.o'
            jobs[s] = (['gcc', '-std=gnu11', '-O2', '-g', '-w', '-DENG_VARIANT="%s"' % variant,
                        '-I' + VERIF + '/engine', '-c', s, '-o', o], o)
        return jobs, d

    def build(self, harness, variant, changed):
        """(changed: path in the copy of the changed file)"""
        jobs, d = self.cmds(harness, variant)
        done = self.objs.setdefault((harness, variant), set())
        todo = [s for s in jobs if s not in done or (s == changed) or (changed.endswith('.h') and '/engine/' not in s)]
        ps = [(s, subprocess.Popen(jobs[s][0], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)) for s in todo]
        ok = True
        for s, p in ps:
            done.discard(s)
            if p.wait():
                ok = False
            elif s != changed and not changed.endswith('.h'):
                done.add(s)
            elif '/engine/' in s:
                done.add(s)
        if not ok:
            return None
        exe = d + '/x'
        if sh(['gcc'] + [o for _, o in jobs.values()] + ['-rdynamic', '-lpthread', '-lm', '-o', exe])[0]:
            return None
        return exe

    def same_code(self, path):
        """True if the library and a file with the macros compile to what they were."""
        return None

    def tests(self):
        for b in sorted(glob.glob(self.repo + '/tests/*.c')):
            x = self.repo + '/_build/bin/' + os.path.basename(b)[:-2]
            if not os.path.exists(x):
                continue
            r = subprocess.run(['timeout', '-s', 'KILL', '6', x], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, cwd=self.d)
            if r.returncode in (137, -9, 124) or (r.returncode and 'PASS' and os.path.basename(x) in STABLE):
                return False
        rc, out = sh([sys.executable, self.d + '/rt.py', self.repo + '/_build'], 200)
        got = {l[5:] for l in out.split('\n') if l.startswith('PASS ')}
        got -= {l[5:] for l in out.split('\n') if l.startswith('FAIL ')}
        return not (STABLE - got)

    def objhash(self):
        h = hashlib.md5()
        for o in sorted(glob.glob(self.repo + '/_build/libc/*.o')):
            t = self.d + '/strip.o'
            subprocess.run(['objcopy', '--strip-debug', o, t])
            h.update(open(t, 'rb').read())
        return h.hexdigest()

    def mutant(self, path, no, old, new):
        full = self.repo + '/' + path
        orig = open('/repo/' + path).read()
        lines = orig.split('\n')
        assert lines[no - 1] == old
        lines[no - 1] = new
        open(full, 'w').write('\n'.join(lines))
        try:
            rc, out = self.make(['tests'])
            if rc:
                return 'no build', ''
            if path.endswith('.c') and self.objhash() == self.base:
                return 'same', ''
            if not self.tests():
                return 'tests', ''
            for pid in order(path, no):
                h, runs = check.CHECKS[pid][:2]
                v, quick, _ = runs[0]
                key = (h, v, pid)
                if (h, v) not in self.built:
                    self.built[(h, v)] = self.build(h, v, full)
                exe = self.built[(h, v)]
                if exe is None:
                    return 'no harness build', ''
                rc, out = sh([exe, '--prop', pid, '--seed', '1', '--cases', str(max(quick // 20, 2000)), '--workers', '2',
                              '--out', self.d + '/out.json', '--replay-out', self.d + '/replay.txt', '--tier', 'quick',
                              '--max-wall', '15'], 60)
                if rc == 1:
                    return 'killed', pid
                if rc:
                    return 'odd', '%s %d %s' % (pid, rc, out[-200:])
            return 'SURVIVED', ''
        finally:
            open(full, 'w').write(orig)

    def run(self, q, res, lock):
        self.make(['tests'])
        self.base = self.objhash()
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            self.built = {}
            t = time.time()
            try:
                r = self.mutant(*m)
            except Exception as e:
                r = ('error', repr(e))
            with lock:
                res.append([*m, *r])
                print('%-9s %-5s %s:%d  %s  (%.0f s)' % (r[0], r[1][:60], m[0], m[1], m[3].strip(), time.time() - t), flush=True)


def run(args):
    q = queue.Queue()
    n = 0
    for a in args:
        path, _, rng = a.partition(':')
        lo, hi = (int(x) for x in rng.split('-')) if rng else (1, 10 ** 6)
        by = {}
        for no, old, new in mutants(path, lo, hi):
            by.setdefault(no, []).append((path, no, old, new))
        for no, ms in by.items():         # a few of each line
            random.Random(no).shuffle(ms)
            for m in ms[:int(os.environ.get('MUT_LINE', '3'))]:
                q.put(m)
                n += 1
    print(n, 'mutants', flush=True)
    res, lock = [], threading.Lock()
    ts = []
    ws = [Worker(k) for k in range(N)]
    for w in ws:
        t = threading.Thread(target=w.run, args=(q, res, lock))
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    count = {}
    for r in res:
        count[r[4]] = count.get(r[4], 0) + 1
    print(count)
    p = W + '/survivors.json'
    old = json.load(open(p)) if os.path.exists(p) else []
    json.dump(old + [r for r in res if r[4] not in ('killed', 'tests', 'same', 'no build')], open(p, 'w'), indent=0)


def full():
    repo, out = W + '/full', W + '/fullout'
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', repo])
    left = []
    env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=out)
    for path, no, old, new, *_ in json.load(open(W + '/survivors.json')):
        orig = open('/repo/' + path).read()
        lines = orig.split('\n')
        if lines[no - 1] != old:
            continue
        lines[no - 1] = new
        open(repo + '/' + path, 'w').write('\n'.join(lines))
        who = None
        for pid in ORDER[path].split():
            r = subprocess.run([VERIF + '/check.py', pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                who = '%s (%d)' % (pid, r.returncode)
                break
        open(repo + '/' + path, 'w').write(orig)
        print(who or 'SURVIVED', '%s:%d' % (path, no), new.strip(), flush=True)
        if not who:
            left.append([path, no, old, new])
            json.dump(left, open(W + '/left.json', 'w'), indent=0)


if __name__ == '__main__':
    os.makedirs(W, exist_ok=True)
    if sys.argv[1] == 'run':
        run(sys.argv[2:])
    elif sys.argv[1] == 'full':
        full()
    elif sys.argv[1] == 'list':
        for a in sys.argv[2:]:
            path, _, rng = a.partition(':')
            lo, hi = (int(x) for x in rng.split('-')) if rng else (1, 10 ** 6)
            for no, old, new in mutants(path, lo, hi):
                print(no, new.strip())
