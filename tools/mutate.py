#!/usr/bin/env python3
"""Measures the checks: small mechanical changes to /repo's sources (in scratch copies), each run against the checks of the
properties its file serves until one reports it. Never used by a check. mutate.py OUT FRACTION SEED FILE..."""
import sys, os, re, json, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get('MUT_VERIF', '/verif'); W = int(os.environ.get('MUT_WORKERS', '1'))
MAP = {'fbfr32.h': 'C01 C02 C03 C05 C04', 'fml32.cpp': 'C01 C04 C03 C02 C05 C21', 'fbfr32fld.h': 'C04 C22 C05', 'expr.cpp': 'C06', 'base64.cpp': 'C07 C09', 'mem.cpp': 'C08 C09 C21', 'ipc.cpp': 'C10 C27 C15 C14', 'ipc.h': 'C10 C12 C20',
 'mib.cpp': 'C11 C13 C12 C20 C18 C19', 'mib.h': 'C11 C13 C12 C18', 'mibtypes.h': 'C11 C19 C23', 'client.cpp': 'C14 C27 C13 C20 C21 C17', 'resp.h': 'C14', 'svcrepo.h': 'C13 C14', 'server.cpp': 'C15 C17 C12 C21', 'tx.cpp': 'C16 C17 C12', 'trx.h': 'C18 C17', 'trx.cpp': 'C18', 'ubbreader.h': 'C19', 'ubb2mib.cpp': 'C19',
 'ubb.h': 'C19', 'basic_parser.h': 'C19 C06 C05 C22', 'extreader.h': 'C05', 'BBL.cpp': 'C20', 'tpadmcall.cpp': 'C23', 'view32.h': 'C22', 'viewc32.cpp': 'C22', 'fieldtbl32.h': 'C22', 'mkfldhdr32.cpp': 'C22', 'userlog.cpp': 'C21', 'xatmi.cpp': 'C21', 'misc.cpp': 'C21', 'misc.h': 'C07 C11 C21 C10', 'fux.h': 'C18 C15 C06', 'TMS.cpp': 'C17', 'fux.cpp': 'C21', 'ud32.cpp': 'C26', 'tmadmin.cpp': 'C23', 'tmboot.cpp': 'C24 C12', 'tmshutdown.cpp': 'C24 C12', 'tmipcrm.cpp': 'C24', 'buildserver.cpp': 'C25', 'buildclient.cpp': 'C25', 'buildtms.cpp': 'C25', 'tmloadcf.cpp': 'C19'}
def mutants(f, lines):
    out = []; com = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'): com = True
        if com:
            if '*/' in s: com = False
            continue
        if not s or s.startswith(('//', '#', '*', 'static_assert', 'using', 'template', 'userlog', 'throw')): continue
        code = l.split('//')[0]
        def add(new, why): 
            if new != l and new.strip() != s: out.append((n, new, why))
        for a, b in ((' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' += ', ' -= '), ('++', '--'), ('true', 'false'), ('false', 'true')):
            for m in re.finditer(re.escape(a), code):
                if a in (' < ', ' > ') and 'template' in code: continue
                if a == '++' and 'for' in code: continue
                add(code[:m.start()] + b + code[m.end():] + '\n', a.strip() + '->' + b.strip())
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            add(code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():].rstrip() + '\n', 'n+1')
        m = re.match(r'(\s*(?:\} else )?if \()(.*)(\) \{\s*)$', code)
        if m: add(m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3), 'if false'); add(m.group(1) + 'true || (' + m.group(2) + ')' + m.group(3), 'if true')
        m = re.match(r'\s+[\w:.>\-\[\]\(\)\*]+(\(.*\)| [-+|&]?= .*|\+\+|--);\s*$', code)
        if m and not re.match(r'\s+(return|auto|static|const|int|long|size_t|char|bool|std::)\b', code): add('  ;\n', 'drop')
        if re.match(r'\s+(break|continue);\s*$', code): add('  ;\n', 'drop')
    return out
def one(a):
    k, f, n, new, why, old = a; w = '/tmp/mut-%d' % k; shutil.rmtree(w, ignore_errors=True); os.mkdir(w)
    subprocess.run('cp -a /repo/src /repo/include /repo/third_party %s/' % w, shell=True)
    for x in ('RM',): 
        if os.path.exists('/repo/' + x): subprocess.run(['cp', '-a', '/repo/' + x, w])
    p = w + '/src/' + f; ls = open(p).readlines(); ls[n] = new; open(p, 'w').writelines(ls)
    res = 'SURVIVED'; t = time.time(); det = ''
    for prop in MAP[f].split():
        ev = w + '/ev'; os.makedirs(ev, exist_ok=True)
        try: r = subprocess.run(['nice', 'python3', V + '/tools/fxcheck.py', prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, env=dict(os.environ, FX_REPO=w, FX_EVDIR=ev, FX_REPLAYS=ev)); rc, o = r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired: rc, o = 'timeout', ''
        if rc == 0: continue
        if 'VIOLATION' in o and rc == 1: res = 'killed ' + prop
        elif 'error:' in o: res = 'nocompile'
        else: res = 'rc=%s %s' % (rc, prop); det = o[-300:]
        break
    subprocess.run(['rm', '-rf', w])
    return dict(id=k, file=f, line=n + 1, why=why, res=res, sec=round(time.time() - t), old=old.strip(), new=new.strip(), det=det)
if __name__ == '__main__':
    outf, frac, seed, files = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    random.seed(seed); todo = []; k = seed * 100000
    for f in files:
        ls = open('/repo/src/' + f).readlines(); ms = mutants(f, ls); pick = random.sample(ms, max(1, int(len(ms) * frac)))
        for n, new, why in sorted(pick): todo.append((k, f, n, new, why, ls[n])); k += 1
    print(len(todo), 'mutants', flush=True)
    if os.environ.get('MUT_LIST'): 
        for t in todo: print(t[1], t[2] + 1, t[4], t[5].strip(), '=>', t[3].strip())
        sys.exit()
    with ThreadPoolExecutor(W) as ex, open(outf, 'a') as o:
        for r in ex.map(one, todo): o.write(json.dumps(r) + '\n'); o.flush()
