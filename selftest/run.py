#!/usr/bin/env python3
"""Self-test of the checker: source mutants that must be reported and rewrites that must stay quiet.

usage: run.py [-j N] [mutants|variants] [FILTER...]   FILTER: a property id or part of a name
Every case is applied to a scratch copy of /repo, which is removed afterwards."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
CHK = os.environ.get('CHK', os.path.join(HERE, '..', 'bin', 'noisecheck'))
ENV = dict(os.environ)
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:' + ENV['PATH']
ENV.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')

def parse(fn):
    """Cases are separated by '=== name [props]'; edits: '--- file', then '<<<<', old, '====', new, '>>>>'."""
    cases, cur, f, mode, old, new = [], None, None, None, [], []
    for line in open(fn):
        line = line.rstrip('\n')
        if mode is None and line.startswith('=== '):
            m = re.match(r'=== (\S+)\s*(.*)', line)
            cur = {'name': m.group(1), 'props': m.group(2).split(), 'edits': []}
            cases.append(cur)
        elif mode is None and line.startswith('--- '):
            f = line[4:].strip()
        elif mode is None and line.startswith('%%% '):
            fs, rest = line[4:].split(' ', 1)
            a, b = rest.split(' ==> ')
            cur['edits'].append((fs, ('re', a), b))
        elif mode is None and line == '<<<<':
            mode, old, new = 'old', [], []
        elif mode == 'old' and line == '====':
            mode = 'new'
        elif mode == 'new' and line == '>>>>':
            cur['edits'].append((f, '\n'.join(old), '\n'.join(new)))
            mode = None
        elif mode == 'old':
            old.append(line)
        elif mode == 'new':
            new.append(line)
    return cases

def allprops():
    return subprocess.run([CHK, '-list'], capture_output=True, text=True).stdout.split()

def run(case, props, build):
    d = tempfile.mkdtemp(prefix='st')
    try:
        repo, ver = d + '/repo', d + '/verif'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        os.mkdir(ver)
        kf = os.path.join(HERE, '..', 'known_findings.txt')
        if os.path.exists(kf): shutil.copy(kf, ver)
        for f, old, new in case['edits']:
            if isinstance(old, tuple):
                import glob
                for p in glob.glob(os.path.join(repo, f)):
                    s = open(p).read()
                    open(p, 'w').write(re.sub(old[1], new, s))
                continue
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return 'BAD-EDIT ' + f + ': ' + old[:60], ''
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        if build:
            r = subprocess.run(['go', 'vet', './...'], cwd=repo, env=ENV, capture_output=True, text=True)
            if r.returncode and 'vet:' in r.stderr:
                return 'NO-BUILD', r.stderr[:500]
        res, out = {}, ''
        for p in props:
            r = subprocess.run([CHK, '-repo', repo, '-verif', ver, p], env=ENV, capture_output=True, text=True)
            res[p] = r.returncode
            if r.returncode not in (0,): out += r.stdout[-1500:] + r.stderr[-800:]
        return res, out
    finally:
        shutil.rmtree(d)

def main():
    a = sys.argv[1:]
    j = 6
    if '-j' in a:
        i = a.index('-j'); j = int(a[i+1]); del a[i:i+2]
    verbose = '-v' in a
    if verbose: a.remove('-v')
    every = '-all' in a  # variants: with every property, not only the ones they were written for
    if every: a.remove('-all')
    kinds = [k for k in ('mutants', 'variants') if k in a] or ['mutants', 'variants']
    flt = [x for x in a if x not in ('mutants', 'variants')]
    bad = 0
    for kind in kinds:
        cases = []
        for fn in sorted(os.listdir(HERE)):
            if fn.startswith(kind) and fn.endswith('.txt'):
                cases += parse(os.path.join(HERE, fn))
        ap = allprops()
        jobs = []
        for c in cases:
            props = [p for p in c['props'] if p in ap]
            if kind == 'variants':
                props = [p for p in ap if every or not c['props'] or p in c['props']]
            if flt:
                if not any(f in c['name'] for f in flt):
                    props = [p for p in props if p in flt]
            if props: jobs.append((c, props))
        with ThreadPoolExecutor(j) as ex:
            for (c, props), (res, out) in zip(jobs, ex.map(lambda t: run(t[0], t[1], True), jobs)):
                if isinstance(res, str):
                    print(kind, c['name'], res, out); bad += 1; continue
                for p, rc in res.items():
                    want = 1 if kind == 'mutants' else 0
                    ok = rc == want and 'analysis]' not in out
                    if kind == 'mutants' and rc == 1 and 'analysis]' in out: ok = None
                    tag = 'ok  ' if ok else ('ok? ' if ok is None else 'FAIL')
                    if not ok: bad += ok is False
                    print(tag, kind, c['name'], p, 'rc', rc, flush=True)
                    if ok is not True or verbose: print('      ' + out.replace('\n', '\n      '))
    print('bad:', bad)
    sys.exit(1 if bad else 0)
main()
