#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes /verif/seeded/<id>/ from BUGS = [dict(id, prop, edits=[(file, old, new)], demo=C++ text or {'sh': text}, needs, breaks)]"""
import sys, os, subprocess, json, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# builds a small program against the library just built and runs it in a scratch directory; cwd is /repo
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -w -g -O1 %s -I"$repo/include" -I"$repo/src" -I"$repo/third_party/clara" -I"$repo/third_party/GSL/include" -DHAVE_CXX_FILESYSTEM "$here/demo.cpp" "$repo/_build/src/.libs/libfuxedo.a" -o "$w/demo" -lstdc++fs -ldl -lpthread || exit 3
cd "$w" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
for b in ns['BUGS']:
    d = '/verif/seeded/' + b['id']
    if os.path.exists(d) and '-f' not in sys.argv: continue
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); w = '/tmp/mkbug'; shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, o, n in b['edits']:
        t = open(w + '/' + f).read(); assert t.count(o) == 1, (b['id'], f, t.count(o), o)
        open(w + '/' + f, 'w').write(t.replace(o, n))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True)); shutil.rmtree(w)
    if isinstance(b['demo'], dict): open(d + '/demo.sh', 'w').write(b['demo']['sh']); [open(d + '/' + k, 'w').write(v) for k, v in b['demo'].items() if k != 'sh']
    else: open(d + '/demo.sh', 'w').write(DEMO % b.get('cxx', '-fsanitize=address')); open(d + '/demo.cpp', 'w').write(b['demo'])
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'])
