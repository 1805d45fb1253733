#!/usr/bin/env python3
"""mkseed.py [NAME...]: writes /verif/seeded/<name>/ from tools/seeds/<name>.txt (edits and demo) and confirms it.

Spec: lines 'property: C14', 'needs: ...', 'breaks: ...', 'pkg: .', edits as in the self-test, then '@@@ demo' and the Go test."""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:' + ENV['PATH']
DEMO = '''#!/bin/bash
# Run in the repository after a build: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d)
cat > "$tmp/ov.json" <<J
{"Replace": {"$repo/PKG/zz_seed_test.go": "$here/demo_test.go"HELPER}}
J
timeout 200 go test -vet=off -count=1 FLAGS-overlay "$tmp/ov.json" -run '^TestSeed' -timeout 150s ./PKG
rc=$?
rm -rf "$tmp"
exit $rc
'''
def spec(name):
    txt = open(f'{here}/seeds/{name}.txt').read()
    head, demo = txt.split('@@@ demo\n')
    meta = {k: m.group(1).strip() if (m := re.search(rf'^{k}: (.*)$', head, re.M)) else '' for k in ('property', 'needs', 'breaks', 'pkg', 'flags')}
    edits = []
    for m in re.finditer(r'^--- (\S+)\n<<<<\n(.*?)\n?====\n(.*?)\n?>>>>$', head, re.M | re.S):
        edits.append(m.groups())
    fs = {}
    cur = None
    # several edits below one '--- file'
    edits = []
    for part in re.split(r'^--- ', head, flags=re.M)[1:]:
        f, rest = part.split('\n', 1)
        for m in re.finditer(r'^<<<<\n(.*?)^====\n(.*?)^>>>>$', rest, re.M | re.S):
            edits.append((f.strip(), m.group(1), m.group(2)))
    return meta, edits, demo

def build(name):
    meta, edits, demo = spec(name)
    d = tempfile.mkdtemp(prefix='seed')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo)
        for f, old, new in edits:
            p = f'{repo}/{f}'
            s = open(p).read()
            if s.count(old) != 1: return f'{name}: edit in {f} matches {s.count(old)} times: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        out = f'{top}/seeded/{name}'
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(diff)
        pkg = meta['pkg'] or '.'
        helper = ''
        if pkg == '.' and 'package noise\n' in demo:
            shutil.copy(f'{here}/seeds/helper_root.go', out + '/helper_test.go')
            helper = ', "$repo/PKG/zz_seed_helper_test.go": "$here/helper_test.go"'
        sh = DEMO.replace('HELPER', helper).replace('PKG', pkg).replace('/./', '/').replace('./.', '.').replace('FLAGS', meta['flags'] + ' ' if meta['flags'] else '')
        open(out + '/demo.sh', 'w').write(sh)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo_test.go', 'w').write(demo)
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        open(out + '/meta.json', 'a').write('\n')
        r = subprocess.run('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...', shell=True, cwd=repo, env=ENV, capture_output=True, text=True)
        if r.returncode: return f'{name}: does not build: {r.stderr[:500]}'
        r1 = subprocess.run([out + '/demo.sh'], cwd=repo, env=ENV, capture_output=True, text=True)
        subprocess.run(['git', 'checkout', '--', '.'], cwd=repo)
        r0 = subprocess.run([out + '/demo.sh'], cwd=repo, env=ENV, capture_output=True, text=True)
        msg = []
        if r0.returncode: msg.append('demo fails on the clean tree:\n' + (r0.stdout + r0.stderr)[-800:])
        if not r1.returncode: msg.append('demo passes with the patch')
        if '-v' in sys.argv: msg.append('with patch: ' + (r1.stdout + r1.stderr)[-600:])
        subprocess.run(['git', 'apply', out + '/patch.diff'], cwd=repo)
        base = json.load(open('/opt/vp/BASELINE.json'))
        r = subprocess.run('go test -vet=off -count=1 -json ./...', shell=True, cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)
        bad = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'fail' and e.get('Test'): bad.add(e['Package'] + '/' + e['Test'])
        if bad: msg.append('tests failing (check whether stable): ' + ' '.join(sorted(bad)))
        chk = os.environ.get('CHK', top + '/bin/noisecheck')
        v = d + '/v'
        os.mkdir(v)
        if os.path.exists(top + '/known_findings.txt'): shutil.copy(top + '/known_findings.txt', v)
        if '-all' in sys.argv:
            props = subprocess.run([chk, '-list'], capture_output=True, text=True).stdout.split()
        else: props = [meta['property']]
        c = subprocess.run([chk, '-repo', repo, '-verif', v, *props], env=ENV, capture_output=True, text=True)
        hits = re.findall(r'VIOLATION property=(\S+)', c.stdout)
        open(f'{here}/seeds/{name}.caught', 'w').write((' '.join(hits) or 'nothing') + '\n')
        first = [l for l in c.stdout.splitlines() if '[' in l][:2]
        return f'{name}: {"; ".join(msg) or "ok"}; caught by {" ".join(hits) or "NOTHING"}' + ('\n   ' + '\n   '.join(first) if first else '')
    finally:
        shutil.rmtree(d)
names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(f[:-4] for f in os.listdir(here + '/seeds') if f.endswith('.txt'))
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(build, names): print(r, flush=True)
