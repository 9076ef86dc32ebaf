"""rewrites the "fixed" list of known_findings.json from the fix: commits in /repo"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {'base64decode':'C07','deleting a field':'C01','creating missing':'C01','a field change past':'C02','conversions to byte':'C04','Fjoin32':'C03','checksums':'C03','Fmkfldid32':'C04',
 'printing negative bytes':'C05','byte arrays with zero bytes':'C05','long strings in expr':'C06','strings with quotes':'C06','text after an expr':'C06','decimal constants':'C06','expressions with fractions':'C06','integer division':'C06','numbers compared':'C06','two characters or':'C06'}
try: P.update(json.load(open(V + '/tools/kf_map.json')))
except OSError: pass
k = json.load(open(V + '/known_findings.json')); k['fixed'] = []
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    p = [v for kk, v in P.items() if kk in s]
    if not p: print('no property for', l)
    k['fixed'].append('fixed: property=%s %s %s' % (p[0] if p else '?', h, s[5:]))
json.dump(k, open(V + '/known_findings.json', 'w'), indent=1); open(V + '/known_findings.json', 'a').write('\n')
