#!/usr/bin/env python3
"""Plant and verify bugs (seeded/<id>).

  seed.py verify [ID…]   patch applies, builds, passes the stable tests; the demonstration tells it apart
  seed.py hunt [ID…]     runs the checks of the property (or those given by CHECKS=…) against the bug
Everything happens in a scratch copy of /repo.
"""
import json, os, subprocess, sys, shutil, tempfile, glob
SEEDED = '/verif/seeded'
SCRATCH = '/tmp/seedwork'
BASE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT'

ENV = 'source /opt/vp/env.sh; cd "$OLDPWD"; '

def fresh():
    if not os.path.isdir(SCRATCH + '/.git'):
        sh(f'git clone -q /repo {SCRATCH}')
    rc, out = sh('git checkout -q -f . && git clean -qfdx && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD', SCRATCH)
    assert rc == 0, out

def stable():
    """names of stable tests failing in SCRATCH"""
    rc, out = sh(ENV + 'go test -json -count=1 ./... 2>/dev/null', SCRATCH)
    ok = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'):
            ok.add((d['Package'], d['Test'].split('/')[0])); ok.add(d['Test'])
    return ok

def names():
    for k in ('stable', 'stable_tests', 'tests', 'passed'):
        if k in BASE: return BASE[k]
    raise SystemExit('BASELINE.json: %s' % list(BASE))

def verify(i):
    d = f'{SEEDED}/{i}'
    fresh()
    rc, out = sh(f'git apply --check {d}/patch.diff', SCRATCH)
    if rc: return 'patch does not apply: ' + out
    tmp = tempfile.mkdtemp(prefix='seeddemo')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            s = f'{d}/{f}'
            (shutil.copytree if os.path.isdir(s) else shutil.copy2)(s, f'{tmp}/{f}')
    try:
        rc, clean = sh(f'bash {tmp}/demo.sh', SCRATCH, timeout=300)
        if rc: return 'demo fails on the unchanged tree:\n' + clean[-1500:]
        base = stable()
        rc, out = sh(f'git apply {d}/patch.diff', SCRATCH)
        rc, out = sh(ENV + 'go build ./... && go vet ./... ', SCRATCH)
        if rc: return 'does not build: ' + out[-1500:]
        lost = base - stable()
        if lost: return 'tests fail: %s' % sorted(map(str, lost))[:8]
        rc, bad = sh(f'bash {tmp}/demo.sh', SCRATCH, timeout=300)
        if rc == 0: return 'demo passes with the patch'
        rc, out = sh('git diff --stat; git status --short', SCRATCH)
        return 'ok  (demo: %s)' % ' | '.join(l.strip() for l in bad.splitlines() if l.strip())[-300:]
    finally:
        shutil.rmtree(tmp)

def hunt(i):
    d = f'{SEEDED}/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    res = []
    fresh(); sh(f'git apply {d}/patch.diff', SCRATCH)
    for p in os.environ.get('CHECKS', prop).split(','):
        rc, out = sh(f'python3 run.py check {p}', '/verif', env={'VERIF_REPO': SCRATCH, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        first = next((l for l in out.splitlines() if l.startswith('VIOLATION')), (out.splitlines() or [''])[-1])
        res.append('%s rc=%d %s' % (p, rc, first[:230]))
    return ' ## '.join(res)

cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDED))
for i in ids:
    for c in cmd.split('+'):
        print(i, c, {'verify': verify, 'hunt': hunt}[c](i), flush=True)
sh(f'cd {SCRATCH} && git checkout -q -f .')
