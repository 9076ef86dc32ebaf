#!/usr/bin/env python3
"""fxcheck.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]
Decides one property: symbolic execution of the current /repo sources under each of the property's harnesses."""
import os, sys, json, time, subprocess, threading, tempfile, shutil, argparse, fcntl, signal, re, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import fxbuild as B
from checks import CHECKS
T0 = time.time()
EVDIR = os.environ.get('FX_EVDIR', B.VERIF + '/evidence'); REPLAYS = os.environ.get('FX_REPLAYS', B.VERIF + '/replays')

def load_known(prop):
    f = B.VERIF + '/known_findings.json'
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f))['open'] if k.get('property') == prop]

def write_inputs(path, ins):
    with open(path, 'w') as f:
        for n, h in ins: f.write('%s\t%s\n' % (n, h))

def native_run(exe, case, ins, timeout=20):
    d = tempfile.mkdtemp(prefix='fxr-')
    try:
        os.chmod(d, 0o700); p = d + '/inputs.txt'; write_inputs(p, ins); w = d + '/w'; os.mkdir(w)
        env = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0', 'PATH': '/usr/bin:/bin'}
        try:
            r = subprocess.run([exe, str(case), p], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as e: return 'timeout', (e.stdout or b'').decode(errors='replace')
    finally: shutil.rmtree(d, ignore_errors=True)

def classify(rc, out):
    if rc == 'timeout': return 'hang'
    if rc == 66: return 'check'
    if rc == 67: return 'exception'
    if rc in (77, 78): return 'desync'
    if rc == 79: return 'assume'
    if rc == 0: return 'ok'
    if rc == 99 or 'AddressSanitizer' in out: return 'memory'
    if isinstance(rc, int) and rc < 0: return 'signal %d' % -rc
    return 'exit %s' % rc

class Check:
    def __init__(s, prop, tier, only, verbose, tests):
        s.prop, s.tier, s.only, s.v = prop, tier, only, verbose
        s.spec = CHECKS[prop]; s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.dir = tempfile.mkdtemp(prefix='fxc-%s-' % prop)
        s.deadline = T0 + (s.spec.get('budget', 420) if tier == 'quick' else s.spec.get('tbudget', 3600))
        s.lines = {}; s.res = {}; s.tests = tests; s.procs = []
    def log(s, *a):
        if s.v: print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)
    def harnesses(s):
        for h in s.spec['harnesses']:
            if s.only and h['name'] not in s.only.split(','): continue
            if s.tier == 'quick' and h.get('thorough_only'): continue
            yield h
    def defs(s, h): return h.get('defs', []) + (['-DTHOROUGH=1'] if s.tier == 'thorough' else []) + (h.get('tdefs', []) if s.tier == 'thorough' else h.get('qdefs', []))
    def src(s, h): return B.VERIF + '/harness/' + h.get('src', h['name']) + '.cpp'
    def cases(s, h): return list(h['tcases'] if s.tier == 'thorough' and 'tcases' in h else h.get('cases', [0]))
    def run(s):
        B.build_engine()
        hs = list(s.harnesses()); nat = {}
        lib, bad = B.repo_ir()
        if lib is None: return s.fatal('the repository does not compile to bitcode: ' + bad[0][1][-800:])
        with ThreadPoolExecutor(B.JOBS) as ex:
            outs = list(ex.map(lambda h: B.link_ir(s.src(h), s.defs(h), s.dir + '/' + h['name'] + '.bc', lib, h.get('trace', False)), hs))
        s.errs = []; s.notbuilt = {}
        for h, o in zip(hs, outs):
            if o: s.notbuilt[h['name']] = o[-1500:]
        s.log('bitcode ready')
        nthread = threading.Thread(target=s.build_native, args=([h for h in hs if h['name'] not in s.notbuilt],)); nthread.start()
        s.explore([h for h in hs if h['name'] not in s.notbuilt])
        nthread.join()
        s.log('exploration done')
        rc = s.judge()
        return rc
    def build_native(s, hs):
        s.native = {}; s.nbad = {}
        lib, bad = B.repo_native()
        if lib is None:
            for h in hs: s.nbad[h['name']] = bad[0][1][-800:]
            return
        def one(h):
            o = s.dir + '/' + h['name'] + '.exe'; e = B.link_native(s.src(h), s.defs(h), o, lib, h.get('trace', False))
            if e: s.nbad[h['name']] = e[-1500:]
            else: s.native[h['name']] = o
        with ThreadPoolExecutor(4) as ex: list(ex.map(one, hs))
        s.log('native ready')
    def explore(s, hs):
        r, w = os.pipe(); n = B.JOBS
        os.write(w, b't' * n); os.set_inheritable(r, True); os.set_inheritable(w, True)
        todo = [(h, c) for h in hs for c in s.cases(h)]
        todo.sort(key=lambda x: -x[0].get('weight', 1))
        live = {}; s.incomplete = {}
        def reap(block=False):
            for k in list(live):
                p, o = live[k]
                if p.poll() is not None:
                    if p.returncode != 0:
                        os.write(w, b't'); s.incomplete.setdefault(k[0], []).append('case %d: engine ended with %s: %s' % (k[1], p.returncode, (p.stderr.read() or b'').decode(errors='replace')[-300:]))
                    del live[k]
        import select
        while todo or live:
            reap()
            left = s.deadline - time.time() - 45
            if left <= 2:
                for h, c in todo: s.incomplete.setdefault(h['name'], []).append('case %d not started' % c)
                todo = []
                if left <= -20:
                    for k, (p, o) in list(live.items()):
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except OSError: pass
                        s.incomplete.setdefault(k[0], []).append('case %d killed' % k[1]); live.pop(k)
                    break
            if todo:
                rr, _, _ = select.select([r], [], [], 0.05)
                if rr:
                    try:
                        fl = fcntl.fcntl(r, fcntl.F_GETFL); fcntl.fcntl(r, fcntl.F_SETFL, fl | os.O_NONBLOCK); t = os.read(r, 1)
                    except BlockingIOError: t = b''
                    if t:
                        h, c = todo.pop(0); out = '%s/%s.%d.out' % (s.dir, h['name'], c)
                        mt = min(h.get('tmax', 1200) if s.tier == 'thorough' else h.get('max', 150), max(left, 5))
                        cmd = [B.BUILD + '/fxsym', '--out', out, '--case', str(c), '--max-time', str(mt), '--max-steps', str(h.get('steps', 20000000)), '--mem', str(h.get('mem', 2500)), '--tests', str(h.get('tests', s.tests)), '--seed', str(s.seed), '--tok', str(r), str(w), s.dir + '/' + h['name'] + '.bc']
                        p = subprocess.Popen(cmd, pass_fds=(r, w), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
                        live[(h['name'], c)] = (p, out)
            else: time.sleep(0.05)
        reap(); os.close(r); os.close(w)
        # collect
        for h in hs:
            R = s.res[h['name']] = dict(paths=0, forks=0, steps=0, queries=0, z3calls=0, z3time=0.0, z3max=0.0, z3unknown=0, assumed=0, funcs=set(), reached={}, errors=[], tests=[], unsupported={}, incomplete=list(s.incomplete.get(h['name'], [])), cases=0, hang=0)
            for c in s.cases(h):
                out = '%s/%s.%d.out' % (s.dir, h['name'], c)
                if not os.path.exists(out): continue
                R['cases'] += 1; nsum = 0; pc = R.setdefault('percase', {}).setdefault(c, [0, 0.0])
                for ln in open(out, errors='replace'):
                    try: j = json.loads(ln)
                    except ValueError: R['incomplete'].append('case %d: broken engine output' % c); continue
                    t = j['t']
                    if t == 'error': R['errors'].append(j)
                    elif t == 'test': R['tests'].append(j)
                    elif t == 'unsupported': R['unsupported'].setdefault(j['msg'], j.get('stack', ''))
                    elif t == 'fatal': R['incomplete'].append('case %d: %s' % (c, j['msg']))
                    elif t == 'sum':
                        nsum += j['root']
                        for k in ('paths', 'forks', 'steps', 'queries', 'z3calls', 'z3time', 'z3unknown', 'assumed', 'hang'): R[k] += j[k]
                        pc[0] += j['paths']; pc[1] += j['z3time']; R['z3max'] = max(R['z3max'], j['z3max']); R['funcs'] |= set(j['funcs'])
                        for k, v in j['reached'].items(): R['reached'][k] = R['reached'].get(k, 0) + v
                        if j['incomplete']: R['incomplete'].append('case %d: %s' % (c, j['why'] or ('unsupported' if j['unsup'] else 'z3 gave up' if j['z3unknown'] else 'incomplete')))
                if not nsum: R['incomplete'].append('case %d: no summary' % c)
            s.log('%-24s cases %d paths %d steps %d queries %d z3 %.1fs errors %d unsup %s incomplete %s' % (h['name'], R['cases'], R['paths'], R['steps'], R['queries'], R['z3time'], len(R['errors']), list(R['unsupported'])[:3], R['incomplete'][:3])); s.log('   paths, solver seconds per case:', ' '.join('%s:%d,%.0f' % (c, a, b) for c, (a, b) in R.get('percase', {}).items()))
    def judge(s):
        known = load_known(s.prop); viol = []; unrep = []; kf = {}; validated = 0; disagreements = []
        jobs = []
        for h in s.harnesses():
            R = s.res.get(h['name'])
            if not R: continue
            exe = s.native.get(h['name'])
            # counterexamples: one replay per kind of failure, up to 3 examples each
            groups = {}
            for e in R['errors']: groups.setdefault((e['kind'], e['msg'] if e['kind'] == 'check' else '', e['at'] if e['kind'] not in ('check', 'hang') else '', e.get('tag', '')), []).append(e)
            for key, es in groups.items(): jobs.append(('err', h, exe, key, es))
            ts = R['tests'][:]; random.Random(s.seed).shuffle(ts)
            for t in ts[:h.get('validate', 12)]: jobs.append(('test', h, exe, None, [t]))
        def do(j):
            kind, h, exe, key, es = j
            if not exe: return j, None
            if kind == 'test': return j, native_run(exe, es[0]['case'], es[0]['inputs'])
            last = None
            for e in es[:3]:
                rc, out = native_run(exe, e['case'], e['inputs']); last = (e, rc, out); c = classify(rc, out)
                if c not in ('ok', 'desync', 'assume'): return j, (e, rc, out)
            return j, last
        # failures first, so that a large number of them cannot use up the time
        jobs.sort(key=lambda j: j[0])
        with ThreadPoolExecutor(B.JOBS) as ex: results = list(ex.map(do, jobs))
        os.makedirs(REPLAYS, exist_ok=True)
        for j, r in results:
            kind, h, exe, key, es = j
            if kind == 'test':
                t = es[0]
                if r is None: continue
                c = classify(*r)
                obs = [ln[4:] for ln in r[1].splitlines() if ln.startswith('OBS ')]
                want = ['%s\t%s' % (n, hx) for n, hx in t['obs']]
                if c == 'ok' and obs == want: validated += 1
                else:
                    d = dict(harness=h['name'], case=t['case'], native=c, inputs=t['inputs'][:20], want=want[:10], got=obs[:10], out=r[1][-600:])
                    # a path the solver calls clean that fails in the real code is a violation found by replay
                    if c in ('check', 'memory', 'exception', 'hang') or c.startswith('signal'): d['real'] = True
                    disagreements.append(d)
                continue
            e0 = es[0]; tag = e0.get('tag', '')
            k = next((k for k in known if k.get('tag') == tag and tag and re.fullmatch(k.get('msg', '.*'), e0['msg'])), None)
            if r is None: unrep.append(dict(harness=h['name'], msg=e0['msg'], at=e0['at'], why='no native build: ' + s.nbad.get(h['name'], '')[-300:])); continue
            e, rc, out = r; c = classify(rc, out)
            if c in ('ok', 'desync', 'assume'): unrep.append(dict(harness=h['name'], case=e['case'], kind=e['kind'], msg=e['msg'], at=e['at'], stack=e['stack'][:400], native=c, out=out[-300:], inputs=e['inputs'][:40])); continue
            if k: kf[k['id']] = k; continue
            viol.append((h, e, c, out))
        for k in kf.values(): print('KNOWN-FINDING: property=%s %s' % (s.prop, k['what']))
        rc = 0
        for n, (h, e, c, out) in enumerate(viol[:6]):
            p = '%s/%s-%d.json' % (REPLAYS, s.prop, n)
            json.dump(dict(property=s.prop, tier=s.tier, harness=h['name'], case=e['case'], kind=e['kind'], msg=e['msg'], at=e['at'], stack=e['stack'], native=c, native_output=out[-3000:], inputs=e['inputs']), open(p, 'w'), indent=1)
            print('%s: %s [%s] at %s; real code: %s' % (h['name'], e['msg'], e['kind'], e['at'] or '-', c))
            print('VIOLATION property=%s replay=%s' % (s.prop, p)); rc = 1
        if not rc and not any(R['paths'] for R in s.res.values()): return s.fatal('no harness could be explored: ' + json.dumps(dict(s.notbuilt))[:800])
        s.evidence(rc, viol, unrep, kf, validated, disagreements)
        if s.v:
            for u in unrep[:6]: print('UNREPRODUCED', json.dumps(u)[:900], file=sys.stderr)
            for d in disagreements[:4]: print('DISAGREEMENT', json.dumps(d)[:900], file=sys.stderr)
            for n, o in list(s.notbuilt.items()) + list(s.nbad.items()): print('NOT BUILT', n, o, file=sys.stderr)
            for h in s.harnesses():
                R = s.res.get(h['name'])
                if R:
                    for m, st in R['unsupported'].items(): print('UNSUPPORTED', h['name'], m[:200], st[:500], file=sys.stderr)
                    for m in R['incomplete'][:5]: print('INCOMPLETE', h['name'], m[:200], file=sys.stderr)
                    miss = [x for x in h.get('reach', []) if x not in R['reached']]
                    if miss: print('NOT REACHED', h['name'], miss, file=sys.stderr)
                    print(h['name'], 'reached', {k: v for k, v in R['reached'].items() if not k.startswith('check: ')}, len(R['reached']), file=sys.stderr)
        return rc
    def evidence(s, rc, viol, unrep, kf, validated, disagreements):
        hv = []; funcs = set(); tot = dict(paths=0, steps=0, queries=0, z3calls=0, z3time=0.0, forks=0, z3unknown=0)
        for h in s.harnesses():
            R = s.res.get(h['name'])
            if not R: hv.append(dict(harness=h['name'], not_built=s.notbuilt.get(h['name'], '')[-400:])); continue
            funcs |= R['funcs']
            for k in tot: tot[k] += R[k]
            hv.append(dict(harness=h['name'], what=h.get('what', ''), bounds=h.get('tbounds', h.get('bounds', '')) if s.tier == 'thorough' else h.get('bounds', ''), cases=R['cases'], paths=R['paths'], instructions=R['steps'], queries=R['queries'], solver_calls=R['z3calls'], solver_s=round(R['z3time'], 2), longest_query_s=round(R['z3max'], 3),
                           complete=not R['incomplete'] and not R['unsupported'] and not R['z3unknown'], incomplete=R['incomplete'][:12], unsupported=sorted(R['unsupported'])[:12], solver_gave_up=R['z3unknown'], assertions_and_witnesses=R['reached'], witnesses_missing=[x for x in h.get('reach', []) if x not in R['reached']]))
        samples = []
        for h in s.harnesses():
            for t in s.res.get(h['name'], {}).get('tests', [])[:2]: samples.append(dict(harness=h['name'], case=t['case'], inputs=t['inputs'][:30], observed=t['obs'][:10]))
        whole = all(x.get('complete') and not x.get('witnesses_missing') for x in hv) and not unrep and not disagreements
        verdict = 'violated' if rc == 1 else 'held within the bounds' if whole else 'no violation found, but the exploration was not complete: see harnesses, unreproduced_counterexamples, replay_disagreements'
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level='model_checking', wall_s=round(time.time() - T0, 2), verdict=verdict,
                  coverage=dict(states=tot['paths'], transitions=tot['forks'], traces_validated_against_impl=validated, samples=samples[:10] or [dict(note='no path completed')],
                    meaning='states: symbolic paths explored to their end, each standing for every input satisfying its path condition; transitions: solver-decided branchings; traces_validated_against_impl: paths replayed in an AddressSanitizer build of the same sources with equal observations',
                    instructions=tot['steps'], queries=tot['queries'], solver_calls=tot['z3calls'], solver_s=round(tot['z3time'], 2), solver_gave_up=tot['z3unknown'], complete=all(x.get('complete') for x in hv),
                    harnesses=hv, functions_encoded=sorted(funcs), unreproduced_counterexamples=unrep[:10], replay_disagreements=disagreements[:5], known_findings=[k['what'] for k in kf.values()], outside=s.spec.get('outside', '')))
        os.makedirs(EVDIR, exist_ok=True)
        p = '%s/%s.json' % (EVDIR, s.prop); json.dump(ev, open(p + '.tmp', 'w'), indent=1); os.rename(p + '.tmp', p)
        s.log('wall %.1f' % (time.time() - T0))
    def fatal(s, msg):
        print('fxcheck: ' + msg, file=sys.stderr)
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level='model_checking', wall_s=round(time.time() - T0, 2), verdict='no answer', coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[dict(note=msg[:500])]))
        os.makedirs(EVDIR, exist_ok=True); json.dump(ev, open('%s/%s.json' % (EVDIR, s.prop), 'w'), indent=1)
        return 2

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--tests', type=int, default=4)
    a = ap.parse_args(); c = Check(a.prop, a.tier, a.only, a.v, a.tests)
    try: rc = c.run()
    finally:
        if a.keep: print(c.dir, file=sys.stderr)
        else: shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(rc)
if __name__ == '__main__': main()
