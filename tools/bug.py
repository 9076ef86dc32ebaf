#!/usr/bin/env python3
"""Planted bugs. bug.py confirm ID...: builds and tests a scratch copy of /repo with the patch (bind-mounted over /repo in a
private namespace), runs the demo there and on /repo, then the property's check on the copy. bug.py check ID...: the check only.
Never used by a check."""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
V = '/verif'; S = V + '/seeded'
def sh(c, t=1200, **k):
    try: r = subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k); return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e: return 'timeout', (e.stdout or b'').decode(errors='replace')
def demo(i, w=None):
    d = '/tmp/demo-%s' % i; shutil.rmtree(d, ignore_errors=True); shutil.copytree('%s/%s' % (S, i), d)
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json': os.remove(d + '/' + f)
    c = 'cd /repo && bash %s/demo.sh' % d
    if w: c = "unshare -mi bash -c 'mount --bind %s /repo && %s'" % (w, c)
    r = sh(c, 300); shutil.rmtree(d, ignore_errors=True); return r
def confirm(i):
    w = '/tmp/bw-' + i; log = '/tmp/bug-%s.log' % i; res = {}
    shutil.rmtree(w, ignore_errors=True); sh(['cp', '-a', '/repo', w])
    out = ''
    try:
        r, o = sh('git -C %s apply %s/%s/patch.diff' % (w, S, i)); out += o
        if r: return i, 'PATCH DOES NOT APPLY ' + o
        r, o = sh("unshare -minpf --mount-proc bash -c 'mount --bind %s /repo && ip link set lo up; mount -t tmpfs none /tmp && bash /opt/vp/test.sh /repo/o.json'" % w); out += o[-20000:]
        j = json.load(open(w + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [x for x in base if x not in j['passed']]
        if miss: return i, 'TESTS FAIL %s' % miss[:5]
        r, o = demo(i, w); out += 'DEMO patched %s\n%s' % (r, o[-3000:])
        r2, o2 = demo(i); out += 'DEMO clean %s\n%s' % (r2, o2[-3000:])
        if r == 0 or r2 != 0: return i, 'DEMO patched=%s clean=%s\n%s\n%s' % (r, r2, o[-1500:], o2[-1500:])
        return i, 'confirmed, demo: ' + o.strip()[-150:]
    finally:
        open(log, 'w').write(out); shutil.rmtree(w, ignore_errors=True)
def check(i, props=None):
    w = '/tmp/bc-' + i; shutil.rmtree(w, ignore_errors=True); os.mkdir(w)
    sh('cp -a /repo/src /repo/include /repo/RM /repo/third_party %s/' % w)
    for x in os.listdir('/repo'):
        if not os.path.exists(w + '/' + x) and x not in ('_build', '.git'): sh(['cp', '-a', '/repo/' + x, w])
    r, o = sh('cd %s && git apply %s/%s/patch.diff' % (w, S, i))
    if r: return i, 'PATCH ' + o
    res = []
    for p in props or [json.load(open('%s/%s/meta.json' % (S, i)))['property']]:
        ev = w + '/ev'; os.makedirs(ev, exist_ok=True)
        r, o = sh(['python3', V + '/tools/fxcheck.py', p], 900, env=dict(os.environ, FX_REPO=w, FX_EVDIR=ev, FX_REPLAYS=ev))
        res.append('%s rc=%s %s' % (p, r, ' | '.join(l[:160] for l in o.splitlines() if l.startswith(('VIOL', 'KNOWN', '  ', 'FATAL', 'NOTE')))[:500]))
    shutil.rmtree(w, ignore_errors=True)
    return i, '; '.join(res)
if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if ids == ['all']: ids = sorted(os.listdir(S))
    if cmd in ('confirm', 'both'):
        with ThreadPoolExecutor(3) as ex:
            for i, m in ex.map(confirm, ids): print('CONFIRM', i, m, flush=True)
    if cmd in ('check', 'both'):
        for i in ids: print('CHECK', *check(i), flush=True)
