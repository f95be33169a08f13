"""Discharging obligations: relevance filtering, instantiation of library rules and
loop schemas, then a portfolio of back ends (z3 default, z3 nlsat after abstraction of
uninterpreted applications, cvc5)."""
import z3, time, os, subprocess, sys, multiprocessing as mp
from sym import *
import sym as S_
import loops

# ------------------------------------------------------------ library rules
def r_sqrt(t):
    x = t.arg(0); return z3.Implies(x >= 0, z3.And(t >= 0, t * t == x))
def r_trig(t):
    x = t.arg(0)
    s, c = z3.Function('m_sin', R, R)(x), z3.Function('m_cos', R, R)(x)
    if z3.is_app(x) and x.decl().name() == 'm_acos':
        u = x.arg(0); return z3.Implies(z3.And(u >= -1, u <= 1), z3.And(c == u, s >= 0, s * s == 1 - u * u))
    if z3.is_app(x) and x.decl().name() == 'm_asin':
        u = x.arg(0); return z3.Implies(z3.And(u >= -1, u <= 1), z3.And(s == u, c >= 0, c * c == 1 - u * u))
    return z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1)
def r_exp(t):
    x = t.arg(0); return z3.And(t > 0, z3.Implies(x <= 0, t <= 1), z3.Implies(x >= 0, t >= 1))
def r_log(t):
    x = t.arg(0); return z3.And(z3.Implies(x >= 1, t >= 0), z3.Implies(z3.And(x > 0, x <= 1), t <= 0))
def r_erf(t):
    x = t.arg(0); return z3.And(t >= -1, t <= 1, z3.Implies(x >= 0, t >= 0), z3.Implies(x <= 0, t <= 0))
def r_pow(t):
    x = t.arg(0); return z3.And(z3.Implies(x > 0, t > 0), z3.Implies(x >= 0, t >= 0))
def r_cosh(t): return t >= 1
def r_sinh(t):
    x = t.arg(0); return z3.And(z3.Implies(x >= 0, t >= 0), z3.Implies(x <= 0, t <= 0), z3.Implies(x > 0, t > 0))
def r_len(t): return t >= 0
RULES = {'m_sqrt': r_sqrt, 'm_sin': r_trig, 'm_cos': r_trig, 'm_exp': r_exp, 'm_log': r_log, 'm_erf': r_erf, 'm_pow': r_pow,
         'm_cosh': r_cosh, 'm_sinh': r_sinh, 'str_len': r_len}
MONO = {'m_exp': '<', 'm_erf': '<', 'm_log': '<'}

_apps = {}
def apps(e):
    """uninterpreted applications with arguments, in e"""
    k = e.get_id()
    r = _apps.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            st += x.children()
    _apps[k] = (e, out)
    return out
_appn = {}
def appsn(e):
    """the same with names and identities"""
    k = e.get_id()
    r = _appn.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out = [(a, a.decl().name(), a.get_id()) for a in apps(e)]
    _appn[k] = (e, out)
    return out

def instantiate(ctx, es, schemas, rounds=2, limit=300, mono=False):
    """library rules, sum rules, schema instances, user rules for the terms in es"""
    out, done, seen = [], set(), set()
    rules = dict(RULES); rules.update(getattr(ctx, 'rules', {}))
    trig = {}
    for s in schemas:
        for n in s.trig: trig.setdefault(n, []).append(s)
    frontier = list(es)
    sums = {}
    monos = {}
    for rd in range(rounds):
        new = []
        for e in frontier:
            for a, n, aid in appsn(e):
                if aid in seen: continue
                seen.add(aid)
                if n in rules and (n, aid) not in done:
                    done.add((n, aid))
                    f = rules[n](a)
                    if f is not None: new += f if isinstance(f, list) else [f]
                    if n in MONO: monos.setdefault(n, []).append(a)
                if n in loops.SUMS and a.get_id() not in [x.get_id() for x in sums.get(n, [])]:
                    j, body = loops.SUMS[n]
                    for b in sums.get(n, []):
                        for p, q in ((a, b), (b, a)):
                            new.append(z3.Implies(z3.And(q.arg(0) == p.arg(0) + 1, p.arg(0) >= 0), q == p + z3.substitute(body, (j, p.arg(0)))))
                    sums.setdefault(n, []).append(a)
                    new.append(z3.Implies(a.arg(0) == 0, a == 0))
                for s in trig.get(n, ()):
                    ks = [a.arg(i) for i in range(len(s.ks))]
                    key = (id(s), tuple(x.get_id() for x in ks))
                    if key in done or len(out) + len(new) > limit: continue
                    done.add(key)
                    ps = list(zip(s.ks, ks))
                    rg = z3.substitute(s.rng, *ps)
                    for f in s.facts: new.append(z3.Implies(rg, z3.substitute(f, *ps)))
        out += new
        frontier = new
        if not new: break
    if mono:
        for n, ts in monos.items():
            for i in range(len(ts)):
                for j in range(i):
                    a, b = ts[i], ts[j]
                    out.append(z3.And(z3.Implies(a.arg(0) <= b.arg(0), a <= b), z3.Implies(b.arg(0) <= a.arg(0), b <= a)))
    return out

def relevant(facts, seeds, rounds=99):
    """facts connected to the seeds through shared symbols"""
    sy = set()
    for e in seeds: sy |= symbols(e)
    rest = [(f, symbols(f)) for f in facts]
    out = []
    for _ in range(rounds):
        nxt = []; add_ = []
        for f, s in rest:
            if (s & sy) or not s: add_.append((f, s))
            else: nxt.append((f, s))
        if not add_: break
        for f, s in add_: out.append(f); sy |= {x for x in s if not x.startswith('m_')}
        rest = nxt
    return out

def quick(ctx, facts, hyps, goal, timeout=400, retry=0):
    if z3.is_true(goal): return True
    fs = relevant(facts, hyps + [goal], 4)
    ax = instantiate(ctx, fs + hyps + [goal], [], rounds=1)
    # the effort is limited by z3's own resource count, so that the outcome does not depend on the load of the machine
    s = z3.Solver(); s.set('rlimit', 3000 * timeout); s.set('timeout', 8 * timeout)
    for f in fs + ax + hyps: s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unknown and retry:
        s.set('rlimit', 3000 * retry); s.set('timeout', 8 * retry); r = s.check()
        if r == z3.unknown: ctx.timeouts = getattr(ctx, 'timeouts', 0) + 1       # a candidate invariant was given up without being refuted
    return r == z3.unsat

# ------------------------------------------------------------ worker side
def ackermann(assertions):
    """replace every uninterpreted application by a constant (dropping congruence except pairwise
       equality axioms for few applications) so that nlsat applies; sound for unsat"""
    m = {}
    order = []
    def walk(e, memo):
        i = e.get_id()
        if i in memo: return memo[i][1]
        if z3.is_quantifier(e): raise ValueError('quantifier')
        ch = [walk(c, memo) for c in e.children()]
        if z3.is_app(e) and e.num_args():
            e2 = e.decl()(*ch) if e.decl().kind() != z3.Z3_OP_AND and e.decl().kind() != z3.Z3_OP_OR else (z3.And(*ch) if e.decl().kind() == z3.Z3_OP_AND else z3.Or(*ch))
            if e.decl().kind() == z3.Z3_OP_ADD: e2 = z3.Sum(*ch) if len(ch) > 1 else ch[0]
            if e.decl().kind() == z3.Z3_OP_MUL:
                e2 = ch[0]
                for c in ch[1:]: e2 = e2 * c
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                k = e2.sexpr()
                if k not in m:
                    m[k] = (e2, z3.Const('ack!%d' % len(m), e2.sort())); order.append(k)
                e2 = m[k][1]
        else: e2 = e
        memo[i] = (e, e2)
        return e2
    memo = {}
    out = [walk(a, memo) for a in assertions]
    byf = {}
    for k in order:
        e2, c = m[k]
        byf.setdefault(e2.decl().name(), []).append((e2, c))
    for n, l in byf.items():
        if len(l) <= 6:
            for i in range(len(l)):
                for j in range(i):
                    (a, ca), (b, cb) = l[i], l[j]
                    out.append(z3.Implies(z3.And(*[a.arg(x) == b.arg(x) for x in range(a.num_args())]), ca == cb))
    return out

def worker(job):
    txt, strat, timeout = job
    t = time.time()
    try:
        if strat == 'cvc5':
            r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--lang=smt2', '-'], input='(set-logic ALL)\n' + txt + '\n(check-sat)\n', capture_output=True, text=True, timeout=timeout / 1000 + 5)
            o = r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
            return (o if o in ('sat', 'unsat') else 'unknown', {}, time.time() - t)
        fs = z3.parse_smt2_string(txt)
        if strat == 'z3':
            s = z3.Solver()
        elif strat == 'nla':
            s = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'smt').solver() if False else z3.SolverFor('QF_UFNRA')
        elif strat == 'nlsat':
            fs = ackermann(fs)
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'qfnra-nlsat').solver()
        s.set('timeout', timeout)
        for f in fs: s.add(f)
        r = str(s.check())
        mod = {}
        if r == 'sat' and strat == 'z3':
            m = s.model()
            for d in m.decls():
                if d.arity() == 0: mod[d.name()] = str(m[d])
                else: mod[d.name()] = str(m[d])[:300]
        if strat == 'nlsat' and r == 'sat': r = 'unknown'
        return (r, mod, time.time() - t)
    except Exception as e:
        return ('unknown', {'error': str(e)[:200]}, time.time() - t)

_pool = None
def pool():
    global _pool
    if _pool is None: _pool = mp.get_context('fork').Pool(int(os.environ.get('VERIF_JOBS', '8')))
    return _pool

def to_smt(fs):
    s = z3.Solver()
    for f in fs: s.add(f)
    t = s.to_smt2()
    return t.replace('(check-sat)', '')

def ring_eq(goal):
    """polynomial / rational identity"""
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True, hoist_ite=True)
        return (z3.is_rational_value(d) or z3.is_int_value(d)) and d.as_fraction() == 0 if not z3.is_int_value(d) else d.as_long() == 0
    return False

def prepare(ctx, o, rounds=99, schema_rounds=2):
    facts = list(o.facts) if o.facts is not None else ctx.facts[:o.nf]
    g = zb(o.guard); goal = zb(o.goal)
    fs = relevant(facts, [g, goal], rounds)
    core = fs + [g, z3.Not(goal)]
    ax = instantiate(ctx, core, ctx.schemas[:o.ns], rounds=schema_rounds, mono=getattr(ctx, 'mono', False))
    return core + ax

def discharge(ctx, obls, timeout=8000, strategies=('z3', 'nlsat', 'cvc5'), verbose=False, second=25000):
    """fills in o.res: proved / refuted / unknown"""
    todo = [o for o in obls if o.res is None]
    # de-duplicate
    for o in todo:
        if not isinstance(o.goal, bool) and ring_eq(o.goal): o.res, o.solver, o.tm = 'proved', 'z3 ring normaliser', 0.0
    todo = [o for o in todo if o.res is None]
    texts = {}
    def submit(o, strat, to, rounds, sr=2):
        key = (id(o), rounds, sr)
        if key not in texts: texts[key] = to_smt(prepare(ctx, o, rounds, sr))
        return pool().apply_async(worker, ((texts[key], strat, to),))
    sats = {}
    plan = [('z3', 2000, 1), ('z3', 4000, 4, 1), ('z3', timeout, 99), ('nlsat', timeout, 1), ('nlsat', timeout, 99), ('cvc5', timeout, 99), ('z3', second, 99)]
    for st, to, rounds, *sr in plan:
        if st not in strategies: continue
        cur = [o for o in todo if o.res is None and not (id(o) in sats and st == 'z3')]
        if not cur: break
        rs = [(o, submit(o, st, to, rounds, *sr)) for o in cur]
        for o, r in rs:
            try: res, mod, tm = r.get(timeout=to / 1000 * 4 + 60)
            except mp.TimeoutError: res, mod, tm = 'unknown', {}, to / 1000
            o.tm = (o.tm or 0) + tm
            if res == 'unsat': o.res, o.solver = 'proved', st
            elif res == 'sat' and rounds == 99: sats[id(o)] = mod; o.model = mod; o.solver = st
        for o in cur:
            if o.res is None and id(o) in sats: o.res = 'refuted'
    for o in todo:
        if o.res is None: o.res = 'refuted' if id(o) in sats else 'unknown'
    return obls
