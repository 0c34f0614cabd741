#!/usr/bin/env python3
"""Mutation testing of the checks: mutation.py DIR COUNT SEED OUT.jsonl [scale]
Mutates a scratch copy of /repo, drops what does not build or what the stable
tests notice, and runs the checks for the package on the rest."""
import json, os, random, subprocess, sys, time
CH = {
 'format': 'C01 C02 C03 C04 C05', 'buf': 'C01 C02', 'breaking': 'C06 C08 C07', 'extract': 'C06 C24 C08 C07', 'reflect': 'C06 C24 C08 C07',
 'lint': 'C10 C25 C11 C12 C04 C18', 'create': 'C15 C16 C25 C28', 'cfginit': 'C26', 'settings': 'C14 C13 C11 C20 C15 C08 C04 C17 C21 C05',
 'file': 'C13 C05 C28 C17', 'protoc/compiler.go': 'C17 C20 C19 C28 C27', 'protoc/downloader.go': 'C21 C22', 'protoc': 'C17 C21',
 'exec': 'C05 C18 C28 C27 C19 C20 C09 C08 C11 C12 C13 C14 C16 C22 C23 C24 C26 C15 C21', 'git': 'C09', 'grpc': 'C23', 'text': 'C18', 'strs': 'C25 C10', 'protostrs': 'C25 C04 C15 C08',
 'diff': 'C05', 'desc': 'C19 C23', 'wkt': 'C20', 'cmd': 'C05 C18 C28 C27 C19 C20 C09 C11 C14 C15 C16 C22 C23 C24 C26 C21',
}
d, count, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
scale = sys.argv[5] if len(sys.argv) > 5 else '0.3'
W = '/tmp/mw.%s.%d' % (d.replace('/', '_'), os.getpid())
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', HOME='/root')
subprocess.check_call(['cp', '-a', '/repo', W])
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(*a, **k):
    try:
        return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    except subprocess.TimeoutExpired:
        return None
files = [os.path.join(W, 'internal', d)] if d.endswith('.go') else sorted(os.path.join(W, 'internal', d, f) for f in os.listdir(os.path.join(W, 'internal', d)) if f.endswith('.go') and not f.endswith('_test.go'))
ms = [json.loads(l) for l in sh('/tmp/mutate', *files).stdout.splitlines()]
# strings are many and dull
random.seed(seed)
ms = [m for m in ms if not m['op'].startswith('string ') or random.random() < 0.25]
random.shuffle(ms)
done = 0
try:
    for m in ms:
        if done >= count: break
        src = open(m['file'], 'rb').read()
        new = src[:m['start']] + m['new'].encode() + src[m['end']:]
        open(m['file'], 'wb').write(new)
        try:
            if sh('go', 'build', './cmd/prototool', './internal/...', cwd=W, env=env).returncode != 0: continue
            done += 1
            rec = dict(m, file=os.path.relpath(m['file'], W))
            r = sh('bash', '-c', 'PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include go test -json -vet=off -timeout 4m -skip "^TestDownload$" ./internal/...', cwd=W, env=env, timeout=300)
            killed = r is None
            if r:
                res = {}
                for l in r.stdout.splitlines():
                    try: e = json.loads(l)
                    except Exception: continue
                    if e.get('Test') and e.get('Action') in ('pass', 'fail'): res[e['Test'], e['Package']] = e['Action']
                ok = {p + '/' + t for (t, p), a in res.items() if a == 'pass'}
                killed = bool(base - ok)
            if killed:
                rec['by'] = 'tests'
            else:
                rec['by'] = None
                key = d if d in CH else d.split('/')[0]
                for c in CH[key].split():
                    r = sh('./check.sh', c, 'quick', cwd='/verif', env=dict(env, VERIF_REPO=W, VERIF_SCALE=scale, VERIF_SHRINK='1ms', VERIF_SEED=str(seed)), timeout=1200)
                    rc = r.returncode if r else 'timeout'
                    if rc == 1: rec['by'] = c; break
                    if rc != 0: rec.setdefault('odd', []).append([c, rc, (r.stdout[-300:] if r else '')])
            with open(out, 'a') as f: f.write(json.dumps(rec) + '\n')
            print(rec['by'], rec['file'], rec['line'], rec['op'][:100], flush=True)
        finally:
            open(m['file'], 'wb').write(src)
finally:
    subprocess.call(['rm', '-rf', W])
