#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: every contract of the property is verified against the IR
clang produces from /repo's current sources; a refuted obligation is replayed
against the real, compiled code.  See DESIGN.md."""
import sys, os, time, json, glob, re, shutil, tempfile, subprocess, threading, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/bin/python'
if 'z3' not in sys.modules:
    try: import z3
    except ImportError:
        if os.path.exists(VT) and sys.executable != VT: os.execv(VT, [VT] + sys.argv)
        raise
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'specs')]
import multiprocessing as mp

def gen_config(work):
    os.makedirs(os.path.join(work, 'gen'), exist_ok=True)
    with open(os.path.join(work, 'gen', 'cgmf_config.h'), 'w') as f:
        f.write('#ifndef __CGMF_CONFIG_H__\n#define __CGMF_CONFIG_H__\n#define INSTALL_DATADIR "/nonexistent"\n#define BUILD_DATADIR "%s/data"\n#endif\n' % REPO)

def sources():
    lib = sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + '/libcgmf/src/*.cpp'))
    return lib + ['utils/cgmf/cgmf.cpp']

# ------------------------------------------------------------------ contracts
def run_contract(args):
    spec, cname, tier, paths = args
    t0 = time.time()
    out = dict(contract=cname, obligations=[], error=None, assumptions=[], inlined=[], called=[], loops=[], status='error')
    try:
        import ir, vc, solve
        prog = ir.Program(paths)
        c = getattr(importlib.import_module(spec), cname)()
        if hasattr(c, 'members'): return run_group(c, prog, tier, out, t0)
        verify_one(c, prog, tier, out, t0)
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-1500:]
    out['wall_s'] = round(time.time() - t0, 2)
    return out

def run_group(g, prog, tier, out, t0):
    """many small functions verified in one process; one function that cannot be processed does not spoil the others"""
    out['function'] = g.name
    st = []; funcs = []; errs = []
    ps = []
    for c in g.members():
        o = dict(contract=c.name, obligations=[], error=None, assumptions=[], inlined=[], called=[], loops=[], status='error')
        try: verify_one(c, prog, tier, o, time.time())
        except Exception as e:
            o['error'] = '%s: %s' % (type(e).__name__, e); errs.append('%s (%s)' % (c.name, o['error']))
        st.append(o['status']); funcs.append(c.name)
        if o['status'] == 'vacuous': errs.append('%s (vacuous)' % c.name)
        for k in ('assumptions', 'inlined', 'called', 'loops'): out[k] = sorted(set(out[k]) | set(o[k]))
        for x in o['obligations']: x['name'] = c.name + ': ' + x['name']
        out['obligations'] += o['obligations']
    out['group'] = funcs
    out['pre_sat'] = 'sat'; out['return_reachable'] = 'sat'
    out['status'] = 'error' if errs else 'refuted' if 'refuted' in st else 'unknown' if 'unknown' in st else 'proved'
    out['error'] = '; '.join(errs)[:2000] if errs else None
    out['wall_s'] = round(time.time() - t0, 2)
    return out

def verify_one(c, prog, tier, out, t0):
        import ir, vc, solve
        out['function'] = c.name
        os.environ['VERIF_JOBS'] = '4'
        ctx = c.verify(prog, {})
        out['vc_s'] = round(time.time() - t0, 2)
        import z3
        # vacuity: the preconditions must be satisfiable
        s = z3.Solver(); s.set('timeout', 5000)
        pf = ctx.facts[:ctx.npre]
        for f in pf + solve.instantiate(ctx, pf, [], rounds=1): s.add(f)
        r = s.check()
        out['pre_sat'] = str(r)
        to = 8000 if tier == 'quick' else 40000
        solve.discharge(ctx, ctx.obls, timeout=to, second=20000 if tier == 'quick' else 120000)
        # reachability of the normal return: must not be provably unreachable
        if ctx.rg is not None and getattr(c, 'returns', True):
            fs = solve.relevant(ctx.facts, [vc.zb(ctx.rg.expr())], 2)
            s = z3.Solver(); s.set('timeout', 3000)
            for f in fs + solve.instantiate(ctx, fs + [vc.zb(ctx.rg.expr())], ctx.schemas): s.add(f)
            s.add(vc.zb(ctx.rg.expr()))
            out['return_reachable'] = str(s.check())
        elif getattr(c, 'returns', True): out['return_reachable'] = 'unsat'
        opaque = set()
        for s_ in ctx.schemas: opaque |= s_.trig
        for o in ctx.obls:
            d = dict(name=o.name, kind=o.kind, fn=o.fn, line=o.line, res=o.res, solver=o.solver, s=round(o.tm or 0, 3))
            if o.res in ('refuted',):
                m = o.model or {}
                d['model'] = {k: v for k, v in sorted(m.items()) if '!' not in k and len(v) < 80 and not k.startswith('m_')}
                sy = set()
                for e in (o.goal, o.guard):
                    if not isinstance(e, bool): sy |= vc.symbols(e)
                d['precise'] = not (sy & opaque) and not any(x.split('!')[0].rstrip('^') in ('H', 'Hc', 'opaque', 'undef', 'nonfinite', 'divzero', 'pcmp', 'opq', 'm_pow', 'm_exp', 'm_log', 'm_erf', 'm_tan', 'm_atan', 'm_sinh', 'm_cosh') for x in sy) and not getattr(c, 'imprecise', False) and not getattr(ctx, 'timeouts', 0)
            out['obligations'].append(d)
        out['assumptions'] = sorted(ctx.assumptions); out['inlined'] = sorted(ctx.inlined); out['called'] = sorted(ctx.called)
        out['loops'] = [str(x) for x in ctx.loops_cut]
        rs = {o.res for o in ctx.obls}
        if out['pre_sat'] == 'unsat' or out.get('return_reachable') == 'unsat': out['status'] = 'vacuous'
        elif not ctx.obls: out['status'] = 'vacuous'
        elif rs <= {'proved'}: out['status'] = 'proved'
        elif 'refuted' in rs: out['status'] = 'refuted'
        else: out['status'] = 'unknown'

def contract_proc(a, q):
    q.put(run_contract(a))

def run_contracts(jobs, limit, par=4):
    """each contract in its own process with a time limit"""
    res = {}
    running = []
    pend = list(enumerate(jobs))
    ctxm = mp.get_context('fork')
    while pend or running:
        while pend and len(running) < par:
            i, j = pend.pop(0)
            q = ctxm.Queue()
            p = ctxm.Process(target=contract_proc, args=(j, q)); p.start()
            running.append((i, j, p, q, time.time()))
        nr = []
        for (i, j, p, q, t) in running:
            try:
                res[i] = q.get(timeout=0.05); kill(p); continue
            except Exception: pass
            if not p.is_alive() and q.empty():
                res[i] = dict(contract=j[1], status='error', error='verifier process ended', obligations=[], assumptions=[], inlined=[], called=[], loops=[], wall_s=time.time() - t); continue
            if time.time() - t > limit:
                kill(p)
                res[i] = dict(contract=j[1], status='error', error='time limit', obligations=[], assumptions=[], inlined=[], called=[], loops=[], wall_s=limit); continue
            nr.append((i, j, p, q, t))
        running = nr
    return [res[i] for i in sorted(res)]

def kill(p):
    try:
        import signal
        kids = subprocess.run(['pgrep', '-P', str(p.pid)], capture_output=True, text=True).stdout.split()
        p.terminate()
        for k in kids:
            try: os.kill(int(k), signal.SIGKILL)
            except OSError: pass
        p.join(2)
        if p.is_alive(): p.kill()
    except Exception: pass

# ------------------------------------------------------------------ replay harness
class Harness:
    """compiles the real code of /repo with the executable contracts of replay/<name>.cpp"""
    def __init__(s, name, work, prop, seed, count, limit, rounds=1):
        s.name, s.work, s.prop, s.seed, s.count, s.limit, s.rounds = name, work, prop, seed, count, limit, rounds
        s.san = s.synth = False; s.lastseed = seed
        s.out = ''; s.status = 'not run'; s.fails = []; s.cases = 0
    def build(s):
        d = os.path.join(s.work, 'h_' + s.name); os.makedirs(d, exist_ok=True)
        src = os.path.join(HERE, 'replay', s.name + '.cpp')
        txt = open(src).read()
        inc = set(re.findall(r'#include "REPO/([\w/.]+\.cpp)"', txt))
        # files whose static functions are exercised are included textually
        open(os.path.join(d, 'h.cpp'), 'w').write(re.sub(r'#include "REPO/', '#include "%s/' % REPO, txt))
        san = ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if 'SANITIZE' in txt else []
        s.san = bool(san); s.synth = 'SYNTHLEVELS' in txt
        flags = ['g++', '-std=gnu++14', '-O1', '-g1', '-w'] + san + ['-I' + REPO + '/libcgmf/include', '-I' + REPO + '/libcgmf', '-I' + os.path.join(s.work, 'gen'), '-I' + os.path.join(HERE, 'replay')]
        lib = [x for x in sources() if x.startswith('libcgmf/') and x not in inc]
        from concurrent.futures import ThreadPoolExecutor
        def one(a):
            i, x = a
            o = os.path.join(d, '%d.o' % i)
            r = subprocess.run(flags + ['-c', x if os.path.isabs(x) else os.path.join(REPO, x), '-o', o], capture_output=True, text=True)
            return o, r
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, enumerate([os.path.join(d, 'h.cpp')] + lib)))
        for o, r in rs:
            if r.returncode: s.status = 'build failed'; s.out = r.stderr[-1500:]; return False
        s.exe = os.path.join(d, 'h')
        r = subprocess.run(flags[:2] + san + [o for o, _ in rs] + ['-o', s.exe], capture_output=True, text=True)
        if r.returncode: s.status = 'build failed'; s.out = r.stderr[-1500:]; return False
        return True
    def run(s):
        run = os.path.join(s.work, 'run_' + s.name); os.makedirs(run, exist_ok=True)
        env = dict(os.environ, CGMFDATA=REPO + '/data/', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99')
        if s.synth:
            sys.path.insert(0, os.path.join(HERE, 'replay'))
            import levels; levels.write(os.path.join(run, 'discreteLevels.dat'))
        else: open(os.path.join(run, 'discreteLevels.dat'), 'w').write('# empty stand-in\n')
        t0 = time.time()
        for k in range(s.rounds):
            if k and (time.time() - t0 > 0.8 * s.limit or s.fails): break
            s.one(run, env, s.seed + 1000 * k, max(20, s.limit - (time.time() - t0)), k)
    def one(s, run, env, seed, limit, k):
        import resource
        def lim():
            if not s.san: resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        s.lastseed = seed
        try:
            r = subprocess.run([s.exe, s.prop, str(seed), str(s.count)], cwd=run, env=env, capture_output=True, text=True, errors='replace', timeout=limit, preexec_fn=lim)
        except subprocess.TimeoutExpired as e:
            so = e.stdout or b''
            so = so.decode(errors='replace') if isinstance(so, bytes) else so
            s.fails = [l for l in so.split('\n') if l.startswith('FAIL ')]
            s.status = 'failed' if s.fails else 'timeout' if not k else 'passed'
            return
        s.out = r.stdout[-4000:] + r.stderr[-3000:]
        s.fails = [l for l in r.stdout.split('\n') if l.startswith('FAIL ')]
        m = re.search(r'^DONE cases=(\d+)', r.stdout, re.M)
        if m: s.cases += int(m.group(1))
        last = [l for l in r.stdout.split('\n') if l.startswith('CASE ')]
        if (r.returncode in (-9, -15) or 'std::bad_alloc' in r.stderr):
            s.status = 'error'; s.out += ' ended by a resource limit'; return
        if (not s.fails and r.returncode != 0) or r.returncode not in (0, 1) or not m:
            sm = re.search(r'ERROR: AddressSanitizer: ([^\n]*)|runtime error: ([^\n]*)', r.stderr)
            s.fails += ['FAIL crash (exit %d) %s %s' % (r.returncode, (sm.group(0)[:200] if sm else ''), last[-1] if last else '')]
        s.status = 'failed' if s.fails else 'passed'
    def go(s):
        try:
            if s.build(): s.run()
        except Exception as e:
            s.status = 'error'; s.out = traceback.format_exc()[-1500:]

# ------------------------------------------------------------------ known findings
def known(prop):
    f = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(f): return []
    return [x for x in json.load(open(f)).get('known', []) if x['property'] == prop]

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = importlib.import_module(prop)
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    code = 0
    try:
        code = decide(prop, tier, seed, spec, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def decide(prop, tier, seed, spec, work, t0):
    import ir
    gen_config(work)
    hs = []
    cnt = getattr(spec, 'CASES', 2000)
    for nm in getattr(spec, 'HARNESS', []):
        hs.append(Harness(nm, work, prop, seed, cnt, 150 if tier == 'quick' else 1200, 1 if tier == 'quick' else 30))
    th = []
    for h in hs:
        t = threading.Thread(target=h.go)
        th.append(t)
    results, irerr = [], None
    try:
        hdr = os.path.join(work, 'headers.cpp')
        open(hdr, 'w').write('#include "cgmfEvents.h"\n#include "cgmfEvents_capi.h"\n')
        paths = ir.build_ir(REPO, sources() + [hdr], os.path.join(work, 'ir'), incs=[os.path.join(work, 'gen')])
    except ir.IRError as e:
        irerr = str(e); paths = None
    if paths:
        jobs = [(prop, c, tier, paths) for c in spec.CONTRACTS]
        results = run_contracts(jobs, 330 if tier == 'quick' else 2400)
    for t in th: t.start(); t.join()
    kn = known(prop)
    suppressed = []
    def is_known(txt):
        for x in kn:
            if re.search(x['match'], txt): return x
        return None
    refuted, undecided = [], []
    for r in results:
        if r['status'] == 'error': undecided.append('%s: %s' % (r['contract'], r['error']))
        if r['status'] == 'vacuous': undecided.append('%s: vacuous (pre %s, return reachable %s)' % (r['contract'], r.get('pre_sat'), r.get('return_reachable')))
        for o in r['obligations']:
            if o['res'] == 'refuted':
                x = is_known('%s | %s' % (r['contract'], o['name']))
                if x: suppressed.append(x); o['res'] = 'known-finding'; continue
                (refuted if o.get('precise') else undecided).append((r, o) if o.get('precise') else '%s: %s (refuted under over-approximation)' % (r['contract'], o['name']))
            elif o['res'] == 'unknown':
                x = is_known('%s | %s' % (r['contract'], o['name']))
                if x: suppressed.append(x); o['res'] = 'known-finding'; continue
                undecided.append('%s: %s (%s)' % (r['contract'], o['name'], o['kind']))
    if irerr: undecided.append('IR: ' + irerr)
    hf = []
    for h in hs:
        for f in h.fails:
            x = is_known('harness | ' + f)
            if x: suppressed.append(x)
            else: hf.append((h, f))
    nkn = sum(1 for r in results for o in r['obligations'] if o['res'] == 'known-finding')
    nobl = sum(len(r['obligations']) for r in results) - nkn
    nok = sum(1 for r in results for o in r['obligations'] if o['res'] == 'proved')
    violated = bool(hf or refuted)
    solvers = {}
    for r in results:
        for o in r['obligations']:
            if o['res'] == 'proved': solvers[o['solver']] = solvers.get(o['solver'], 0) + 1
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(hf) + len(refuted),
        assumptions=sorted(set(getattr(spec, 'ASSUME', []) + BASE_ASSUME + [a for r in results for a in r['assumptions']])),
        coverage=dict(obligations=nobl, discharged=nok, obligations_listed_as_known_findings=nkn, checker_cmd='python3 /verif/check.py %s %s' % (prop, tier),
            trusted_base=TRUSTED + sorted({'assumed contract: ' + c for c in getattr(spec, 'TRUSTED', [])}),
            backends=solvers, solver_s=round(sum(o['s'] for r in results for o in r['obligations']), 2),
            functions_under_contract=[dict(function=r.get('function', r['contract']), **({'members': r['group']} if 'group' in r else {}), status=r['status'], obligations=len(r['obligations']),
                 proved=sum(1 for o in r['obligations'] if o['res'] == 'proved'), callee_contracts=r['called'], inlined=r['inlined'],
                 loops=r['loops'], precondition_satisfiable=r.get('pre_sat'), return_reachable=r.get('return_reachable'), error=r['error'], wall_s=r['wall_s']) for r in results],
            undecided=undecided,
            bounded_replay=[dict(harness=h.name, status=h.status, cases=h.cases, note='bounded: executable form of the contracts on the compiled code, %d random/boundary cases; not counted as proved' % h.cases) for h in hs],
            samples=[dict(contract=r['contract'], obligation=o['name'], line=o['line'], res=o['res'], solver=o['solver']) for r in results for o in r['obligations'][-3:]][:40]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for x in {x['what']: x for x in suppressed}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, x['what']))
    print('%s: %d/%d obligations discharged in %d functions (%s); bounded replay: %s; %.1fs' % (prop, nok, nobl, len(results), ', '.join('%s %d' % x for x in sorted(solvers.items(), key=str)),
          ', '.join('%s %s %d cases' % (h.name, h.status, h.cases) for h in hs), time.time() - t0))
    for u in undecided: print('UNDECIDED (not proved on this tree): %s' % u)
    for h in hs:
        if h.status not in ('passed', 'failed'): print('replay %s: %s %s' % (h.name, h.status, h.out[-600:]))
    if violated:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.txt' % prop)
        with open(rp, 'w') as f:
            for h, l in hf:
                f.write('failing input on the real code: %s\n  rerun: %s %s %d %d (built from %s/replay/%s.cpp and /repo)\n' % (l, h.name, prop, h.lastseed, h.count, HERE, h.name))
            for r, o in refuted:
                f.write('failed obligation: %s :: %s (%s, line %s, back end %s)\n  counterexample: %s\n' % (r.get('function'), o['name'], o['fn'], o['line'], o['solver'], json.dumps(o.get('model', {}))))
            for h in hs: f.write('--- replay output %s\n%s\n' % (h.name, h.out[-3000:]))
        for h, l in hf[:3]: print('  ' + l[:300])
        for r, o in refuted[:5]: print('  failed obligation: %s :: %s (line %s)' % (r.get('function'), o['name'], o['line']))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if hf else ' no-failing-input-found'))
        return 1
    return 0

BASE_ASSUME = ['machine integers are treated as mathematical integers (no overflow)', 'doubles are treated as real numbers (rounding, NaN and infinities ignored); decimal constants are taken to 13 significant digits',
  'distinct pointer parameters, globals and allocations do not overlap', 'termination is not proved', 'C++ exceptions are not modelled']
TRUSTED = ['clang 18 front end and opt passes sroa, simplifycfg, loop-simplify, lcssa', 'the VC generator in /verif/engine', 'z3 / cvc5', 'library models in /verif/engine/models.py']
if __name__ == '__main__': main()
