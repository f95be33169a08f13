"""Loop cutting.  For a loop with generic iteration number k:

 * loop-carried scalars (phis and memory cells at a loop-invariant address) get the
   closed form that follows inductively from their one-iteration update
   (unchanged / linear / sum / last value), otherwise an opaque function of k with
   its recurrence;
 * element-wise writes (index affine in k) become one parametrised write;
 * everything else the body may modify is havocked;
 * candidate invariants (templates and the ones given by the specification) are
   kept only if initiation and consecution are proved (Houdini).

The body is then executed once more for the generic iteration k with obligations
on; the same execution describes the exit iteration.  Partial correctness:
termination is not claimed."""
import z3
from fractions import Fraction
from ir import *
from sym import *
import sym as S_
from vc import Guard, Write, Edge, Unsupported

class Schema:
    """for all ks in range: facts.  Instantiated (at solve time) wherever an application
       of one of the functions `trig` occurs; the first len(ks) arguments give ks."""
    __slots__ = ('ks', 'rng', 'facts', 'trig')
    def __init__(s, ks, rng, facts, trig): s.ks, s.rng, s.facts, s.trig = ks, rng, facts, trig

class Lifter:
    def __init__(s, start, k, keep):
        s.start, s.k, s.keep = start, k, keep
        s.cm, s.fm = {}, {}
        s.trig = set()
        s.cache = {}
    def needs(s, n): return S_.SYMNO.get(n, 0) > s.start and n not in s.keep
    def expr(s, e):
        if isinstance(e, Ptr): return Ptr(e.r, [x if isinstance(x, tuple) else s.expr(x) for x in e.path])
        if isinstance(e, PtrIte): return PtrIte([(s.expr(c), s.expr(p)) for c, p in e.alts])
        if isinstance(e, Agg): return Agg([s.expr(x) for x in e.v])
        if isinstance(e, Packed): return Packed([(a, b, s.expr(x)) for a, b, x in e.f], e.bits)
        if not is_z(e): return e
        i = e.get_id()
        if i in s.cache and s.cache[i][0].eq(e): return s.cache[i][1]
        r = s._expr(e)
        s.cache[i] = (e, r)
        return r
    def _expr(s, e):
        names = [n for n in symbols(e) if s.needs(n)]
        if not names: return e
        for d in decls(e):
            n = d.name()
            if not s.needs(n): continue
            if d.arity() == 0:
                if n not in s.cm:
                    F = z3.Function(n + '^', I, d.range())
                    S_.SYMNO[n + '^'] = s.start
                    s.cm[n] = (d(), F(s.k)); s.trig.add(n + '^')
            elif n not in s.fm:
                F = z3.Function(n + '^', *([I] + [d.domain(j) for j in range(d.arity())] + [d.range()]))
                S_.SYMNO[n + '^'] = s.start
                s.fm[n] = (d, F(s.k, *[z3.Var(j, d.domain(j)) for j in range(d.arity())])); s.trig.add(n + '^')
        fs = [s.fm[n] for n in names if n in s.fm]
        if fs: e = z3.substitute_funs(e, *fs)
        cs = [s.cm[n] for n in names if n in s.cm]
        if cs: e = z3.substitute(e, *cs)
        return unz(e)

_dc = {}
def decls(e):
    k = e.get_id()
    r = _dc.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out[d.name()] = d
            st += x.children()
    out = list(out.values())
    _dc[k] = (e, out)
    return out

SUMS = {}          # function name -> (k var, summand)
def sumterm(e, k, n):
    """SUM_{0<=j<n} e[k:=j] as an application of a function keyed by the summand"""
    isr = real(e)
    e = simp(zr(e) if isr else zi(e))
    if is_c(e): return mul(e, n) if not isr else mul(e, zr(n) if is_z(n) else Fraction(n))
    body = z3.substitute(e, (k, z3.Int('#j')))
    key = body.sexpr()
    import hashlib
    nm = 'SUM_' + hashlib.md5(key.encode()).hexdigest()[:12]
    f = z3.Function(nm, I, R if isr else I)
    SUMS[nm] = (z3.Int('#j'), body)
    S_.SYMNO[nm] = max([S_.SYMNO.get(x, 0) for x in symbols(body)] + [0])
    return f(zi(n))

def has(e, names): return any(n in names for n in symbols(e))

def delta(N, phi):
    """N - phi when N is phi plus something free of phi; else None"""
    nm = phi.decl().name()
    if is_c(N) or nm not in symbols(N): return None
    if N.eq(phi): return Fraction(0) if z3.is_real(phi) else 0
    if z3.is_app_of(N, z3.Z3_OP_ITE):
        c, a, b = N.children()
        if nm in symbols(c): return None
        da, db = delta(unz(a), phi), delta(unz(b), phi)
        if da is None or db is None: return None
        return ite(c, da, db)
    if z3.is_add(N):
        ch = N.children()
        w = [x for x in ch if nm in symbols(x)]
        if len(w) != 1: return None
        d = delta(w[0], phi)
        if d is None: return None
        for x in ch:
            if x is not w[0]: d = add(d, unz(x))
        return d
    if z3.is_sub(N) and N.num_args() == 2:
        a, b = N.children()
        if nm in symbols(b): return None
        d = delta(a, phi)
        return None if d is None else sub(d, unz(b))
    return None

class Slot:
    """a loop-carried scalar"""
    def __init__(s, name, init, sort, build, kind):
        s.name, s.init, s.sort, s.build, s.kind = name, init, sort, build, kind
        s.sym = None; s.next = None; s.form = None; s.cls = 'opaque'

def mk_sym(sort, nm): return z3.Const(fresh_name(nm), sort)

def phi_slots(ctx, fr, h, init):
    slots, fixed = [], {}
    for p in fr.fn.blocks[h].phis:
        v = init.get(p.dst)
        t = p.ty.res()
        if v is None: fixed[p.dst] = ctx.fresh_of(p.ty, p.dst); continue
        if t.k in ('double', 'float'): slots.append(Slot(p.dst, v, R, (lambda x: x), 'phi'))
        elif t.k == 'int' and not isinstance(v, (Packed, Opaque, Ptr)): slots.append(Slot(p.dst, v, B if t.n == 1 else I, (lambda x: x), 'phi'))
        elif isinstance(v, Ptr) and v.path and not isinstance(v.path[-1], tuple):
            slots.append(Slot(p.dst, v.path[-1], I, (lambda x, v=v: Ptr(v.r, v.path[:-1] + (x,))), 'ptr'))
            slots[-1].ptr = v
        else: fixed[p.dst] = ctx.fresh_of(p.ty, p.dst)
    return slots, fixed

def const_steps(fr, h, slots):
    """integer variables that visibly grow by a constant in every iteration"""
    out = {}; body = fr.fn.loops[h]
    defs = {}
    for b in body:
        for i in fr.fn.blocks[b].ins:
            if i.op in ('add', 'sub') and i.dst is not None: defs[i.dst] = i
    names = {s.name for s in slots if s.kind == 'phi' and s.sort == I}
    for p in fr.fn.blocks[h].phis:
        if p.dst not in names: continue
        c = []
        for src, v in p.a.items():
            if src not in body: continue
            i = defs.get(v[1]) if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str) else None
            c.append(step_of(i, p.dst))
        if c and None not in c and len(set(c)) == 1: out[p.dst] = c[0]
    return out
def step_of(i, name):
    if i is None: return None
    a = i.a
    def loc(x): return isinstance(x, tuple) and len(x) > 1 and x[1] == name and x[0] != 'c'
    def con(x): return int(x[1]) if isinstance(x, tuple) and len(x) > 1 and x[0] == 'c' and isinstance(x[1], int) and not isinstance(x[1], bool) else None
    if len(a) < 2: return None
    if loc(a[0]) and con(a[1]) is not None: return con(a[1]) if i.op == 'add' else -con(a[1])
    if i.op == 'add' and loc(a[1]) and con(a[0]) is not None: return con(a[0])
    return None

def header_wild(ctx, g0, keys):
    """dry-run header state: every modified key is opaque (except pattern components)"""
    H = {}
    for key, pat in keys.items():
        r, shape = key
        t = pat['t']
        so = ctx.sort_of(t) if t is not None else I
        if so is None:
            ctx.wr(r, shape, Write(0, g0, pat['idx'], Opaque('pointer modified in a loop'), line=ctx.line)); continue
        wild = [j for j, x in enumerate(pat['idx']) if x is None]
        nm = fresh_name('H')
        if pat.get('cells') is not None:
            syms = []
            for c in pat['cells']:
                sy = z3.Const(fresh_name('Hc'), so)
                ctx.wr(r, shape, Write(0, g0, c, sy, line=ctx.line)); syms.append(sy)
            H[key] = ('cells', syms)
            continue
        if wild:
            f = z3.Function(nm, *([I] * len(wild) + [so]))
            ctx.wr(r, shape, Write(0, g0, pat['idx'], None, hav=(lambda q, f=f, wild=wild: f(*[zi(q[j]) for j in wild])), line=ctx.line))
            H[key] = ('fn', f, wild)
        else:
            sy = z3.Const(nm, so)
            ctx.wr(r, shape, Write(0, g0, pat['idx'], sy, line=ctx.line))
            H[key] = ('cells', [sy])
    return H

def leaf_type(ctx, r, shape):
    if any(isinstance(x, str) and x != '*' for x in shape):
        if '$v' in shape: return ctx.vtypes.get((r, shape[:-1]), DBL)
        return INT(64)
    t = r.elty
    if t is None: return None
    for x in shape[r.nidx:]:
        t = t.res(); t = t.el if x == '*' else t.fields[x]
    return t.res()

class LoopInfo:
    """what a specification-supplied candidate invariant may refer to: iteration number, loop-carried scalars, arrays written at varying indices"""
    def __init__(s, ctx, g, fn, line, k, vals, keys, base=None):
        s.init, s.env, s.seq0, s.g0, s.outer = base          # loop-carried scalars, variables, memory and path condition on entry; names of the loop-carried scalars of the enclosing loops
        s.ctx, s.g, s.fn, s.line, s.k, s.vals = ctx, g, fn, line, k, vals
        s.arrays = [(key, pat) for key, pat in keys.items() if pat.get('cells') is None and any(x is None for x in pat['idx']) and pat['t'] is not None]
    def ints(s): return [(n, v) for n, v in s.vals.items() if not isinstance(v, (Opaque, Ptr, PtrIte, NullT, Packed, Agg, type(None))) and (isinstance(v, int) and not isinstance(v, bool) or is_z(v) and z3.is_int(v))]
    def reals(s): return [(n, v) for n, v in s.vals.items() if isinstance(v, Fraction) or is_z(v) and z3.is_real(v)]
    def rd(s, key, pat, *w):
        """element of a written array; w fills the varying index components"""
        w = list(w)
        idx = tuple(w.pop(0) if x is None else x for x in pat['idx'])
        return s.ctx.read(key[0], key[1], idx, pat['t'], s.g)
    def loc1(s, sort=R):
        """local or global one-dimensional arrays of scalars written in the loop"""
        return [(key, pat) for key, pat in s.arrays if sum(x is None for x in pat['idx']) == 1 and s.ctx.sort_of(pat['t']) == sort]

def hook_eval(ctx, hooks, g, fr, h, li):
    out = []
    for hk in hooks: out += hk(ctx, g, fr, h, li)
    return out

def cut(ctx, fr, h, edges):
    g0, init = ctx.merge_edges(fr, h, edges)
    start = counter()
    born = Region._n[0]
    k = fresh_int('k')
    slots, fixed = phi_slots(ctx, fr, h, init)
    env0 = dict(fr.env); nret = len(fr.rets)
    line0 = ctx.line
    hooks = ctx.inv_hooks
    keys = {}
    base = ({s.name: s.init for s in slots}, env0, ctx.seq, g0, [p.dst for H, b in fr.fn.loops.items() if h in b and H != h for p in fr.fn.blocks[H].phis])
    steps = const_steps(fr, h, slots) if ctx.steps else {}
    for s in slots:
        if s.name in steps: s.form, s.cls, s.step = add(s.init, mul(steps[s.name], k)), 'linear', steps[s.name]
    # ---------------- dry passes
    for npass in range(8):
        sn = ctx.snap(); nsch = len(ctx.schemas)
        ctx.dry += 1
        try:
            fr.env = dict(env0)
            for s in slots: s.sym = mk_sym(s.sort, s.name.split('.')[0])
            H = header_wild(ctx, g0, keys)
            hseq = ctx.seq
            if steps: ctx.assume(k >= 0, g0)
            nf0 = len(ctx.facts)
            hd_c = hook_eval(ctx, hooks, g0, fr, h, LoopInfo(ctx, g0, fr.fn.name, line0, k, {s.name: s.form if s.name in steps else s.sym for s in slots}, keys, base))
            phi = dict(fixed)
            for s in slots: phi[s.name] = s.build(s.form if s.name in steps else s.sym)
            ex, backs = ctx.run_level(fr, h, h, [Edge(g0, phi, None)])
            # modified keys
            new = False
            writes = {}
            for key, ws in ctx.log.items():
                if key[0].uid > born and key[0].kind in ('alloca', 'heap', 'view'): continue
                n0 = sn[4].get(key, 0)
                ww = [w for w in ws[n0:] if w.seq > hseq]
                if not ww: continue
                writes[key] = ww
                pat = pattern(ctx, key, ww, start, k)
                if key not in keys: keys[key] = pat; new = True
                elif merge_pat(keys[key], pat): new = True
            done = not new
            if done or npass == 7:
                if not done: raise Unsupported('loop write patterns do not stabilise in ' + fr.fn.name)
                res = None
                if backs:
                    gb, nx = ctx.merge_edges(fr, h, backs)
                    bk_c = hook_eval(ctx, hooks, gb, fr, h, LoopInfo(ctx, gb, fr.fn.name, line0, add(k, 1), {s.name: (nx.get(s.name).path[-1] if s.kind == 'ptr' and isinstance(nx.get(s.name), Ptr) else nx.get(s.name)) for s in slots}, keys, base))
                    cellnext = {}
                    for key, hh in H.items():
                        if hh[0] == 'cells':
                            cs = keys[key].get('cells') or [tuple(keys[key]['idx'])]
                            cellnext[key] = [ctx.read(key[0], key[1], c, keys[key]['t'] or INT(64), gb) for c in cs]
                    res = (gb, nx, bk_c, cellnext, [f for f in ctx.facts[nf0:]], ctx.schemas[nsch:], ex)
        finally:
            ctx.dry -= 1
            allfacts = list(ctx.facts)
            inner = ctx.schemas[nsch:]
            ctx.rollback(sn); del ctx.schemas[nsch:]
            fr.env = dict(env0); del fr.rets[nret:]
        if done: break
    if res is None:
        # body never loops back: straight-line
        ctx.loops_cut.append((fr.fn.name, line0, 'no back edge'))
        return ctx.run_level(fr, h, h, [Edge(g0, dict(init), None)])[0]
    gb, nx, bk_c, cellnext, dfacts, inner, dex = res
    ent_c = hook_eval(ctx, hooks, g0, fr, h, LoopInfo(ctx, g0, fr.fn.name, line0, 0, {s.name: s.init for s in slots}, keys, base))
    # ---------------- slots for memory cells
    mem = []
    for key, hh in H.items():
        if hh[0] != 'cells': continue
        cs = keys[key].get('cells') or [tuple(keys[key]['idx'])]
        for c, sy, nxv in zip(cs, hh[1], cellnext[key]):
            iv = ctx.read(key[0], key[1], c, keys[key]['t'] or INT(64), g0)
            if isinstance(iv, (Opaque, Ptr, PtrIte, NullT)): iv = mk_sym(sy.sort(), 'undef')
            s = Slot('%s%s' % (key[0].name, c), iv, sy.sort(), (lambda x: x), 'mem')
            s.sym, s.next, s.key, s.cell = sy, nxv, key, c
            mem.append(s)
    for s in slots:
        v = nx.get(s.name)
        if s.kind == 'ptr':
            ok = isinstance(v, Ptr) and v.r is s.ptr.r and len(v.path) == len(s.ptr.path) and all(
                x == y if isinstance(x, tuple) or isinstance(y, tuple) else same(x, y) for x, y in zip(v.path[:-1], s.ptr.path[:-1]))
            if not ok: raise Unsupported('pointer walks between objects in a loop of ' + fr.fn.name)
            v = v.path[-1]
        s.next = v
    allslots = slots + mem
    # ---------------- closed forms (fixpoint by substitution)
    L = Lifter(start, k, {k.decl().name()})
    opaque_fns = {hh[1].name() for hh in H.values() if hh[0] == 'fn'}
    forms = {}
    def cur(e):
        if not is_z(e): return e
        ps = [(s.sym, s.form) for s in allslots if s.form is not None]
        return simp(subst(e, ps)) if ps else e
    # fresh opaque functions for slots
    changed = True
    unresolved = [s for s in allslots if s.form is None]
    order = 0
    while changed:
        changed = False
        unr = {s.sym.decl().name() for s in unresolved}
        for s in list(unresolved):
            N = s.next
            if N is None or isinstance(N, (Opaque, Ptr, PtrIte, NullT, Packed, Agg)): continue
            N = cur(N) if is_z(N) else N
            if is_z(N): N = simp(N)
            s.nextc = N
            if is_z(N) and N.eq(s.sym): s.form, s.cls = s.init, 'unchanged'
            else:
                others = unr | opaque_fns
                d = delta(N, s.sym) if (is_z(N) and s.sort is not B) else None
                if d is not None and not has(d, others):
                    d = simp(d) if is_z(d) else d
                    inv = not is_z(d) or all(S_.SYMNO.get(n, 0) <= start for n in symbols(d))
                    if inv:
                        s.form = add(s.init, mul(d, zr(k) if s.sort == R else k)); s.cls = 'linear'
                        s.step = d
                    else:
                        s.form = add(s.init, sumterm(L.expr(d), k, k)); s.cls = 'sum'
                elif not has(N, others):
                    pv = subst(L.expr(N), [(k, sub(k, 1))]) if is_z(N) else N
                    s.form = ite(cmp('eq', k, 0), s.init, pv); s.cls = 'last'
                    if is_z(s.form) and s.sort == R: s.form = zr(s.form)
            if s.form is not None:
                if s.sort == R and is_c(s.form): s.form = Fraction(s.form)
                unresolved.remove(s); changed = True
                break
    # opaque slots: functions of k
    for s in unresolved:
        L.expr(s.sym)                       # creates the lifted function
        nm = s.sym.decl().name()
        s.fn = z3.Function(nm + '^', I, s.sort); s.form = s.fn(k); s.cls = 'opaque'
        L.trig.add(nm + '^')
    # ---------------- schema of completed iterations 0 <= j < k
    pairs = [(s.sym, s.form) for s in allslots if s.cls != 'opaque']
    def LL(e):
        if not is_z(e): return e
        return zb(L.expr(subst(e, pairs))) if z3.is_bool(e) else L.expr(subst(e, pairs))
    backc = gb.rel(g0)
    sfacts = [LL(f) for f in dfacts]
    bfact = LL(backc) if not isinstance(backc, bool) else None
    rec = []
    for s in unresolved:
        N = s.next
        if N is None or isinstance(N, (Opaque, Ptr, PtrIte, NullT, Packed, Agg)): continue
        N = L.expr(subst(N, pairs)) if is_z(N) else N
        rec.append(s.fn(k + 1) == (zr(N) if s.sort == R else zb(N) if s.sort == B else zi(N)))
    allsf = [f for f in sfacts + ([bfact] if bfact is not None else []) + rec if not isinstance(f, bool)]
    j = z3.Int(fresh_name('j')); S_.SYMNO[j.decl().name()] = start
    inst = [z3.substitute(f, (k, j)) for f in allsf]
    sch = Schema([j], z3.And(j >= 0, j < k), inst, set(L.trig))
    # inner schemas, lifted
    for s_ in inner:
        fs = [L.expr(subst(f, pairs)) for f in s_.facts]
        rg = L.expr(subst(s_.rng, pairs))
        jj = z3.Int(fresh_name('j')); S_.SYMNO[jj.decl().name()] = start
        ren = lambda e: z3.substitute(e, (k, jj)) if is_z(e) else e
        ctx.schemas.append(Schema([jj] + s_.ks, z3.And(jj >= 0, jj < k, ren(zb(rg))), [ren(zb(f)) for f in fs if not isinstance(f, bool)], {t + '^' for t in s_.trig}))
    ctx.schemas.append(sch)
    # ---------------- facts about k
    ctx.assume(k >= 0)
    for s in unresolved:
        ini = zr(s.init) if s.sort == R else zb(s.init) if s.sort == B else zi(s.init)
        ctx.assume(s.fn(z3.IntVal(0)) == ini, g0)
    for f in inst:
        if len(symbols(f)) < 400:
            ctx.assume(z3.Implies(k > 0, z3.substitute(f, (j, k - 1))), g0)
    # only the continuation condition at the first iteration
    if bfact is not None and is_z(bfact):
        ctx.assume(z3.Implies(k > 0, z3.substitute(bfact, (k, z3.IntVal(0)))), g0)
        if ctx.quant_cont:
            b2 = z3.substitute(bfact, (k, j))
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), b2)), g0)
        # exit by (dis)equality with a bound: a counter moving by one cannot jump over it
        for e, pol in Guard.lits(bfact):
            if pol or not z3.is_eq(e) or not z3.is_int(e.arg(0)): continue
            d = simp(e.arg(0) - e.arg(1))
            if not is_z(d): continue
            for sg in (1, -1):
                c0 = simp(d - sg * k)
                if is_z(c0) and k.decl().name() in symbols(c0): continue
                if is_z(c0) and any(S_.SYMNO.get(n, 0) > start for n in symbols(c0)): continue
                c0 = zi(c0)
                ctx.assume(z3.Implies(c0 <= 0, z3.Or(k == 0, c0 + k - 1 < 0)) if sg == 1 else z3.Implies(c0 >= 0, z3.Or(k == 0, c0 - k + 1 > 0)), g0)
    # ---------------- header memory for iteration k
    memw = []
    for key, hh in H.items():
        r, shape = key
        pat = keys[key]
        if hh[0] == 'cells':
            continue
        bw = bulk(ctx, key, writes.get(key, []), pat, hh, L, pairs, g0, k, start, sn)
        if bw is not None:
            for w in bw: memw.append((key, w))
        else:
            f, wild = hh[1], hh[2]
            so = f.range()
            F = z3.Function(f.name() + '^', *([I] * (1 + len(wild)) + [so]))
            S_.SYMNO[f.name() + '^'] = start
            memw.append((key, Write(0, g0, pat['idx'], None, hav=(lambda q, F=F, wild=wild: F(k, *[zi(q[x]) for x in wild])), line=ctx.line)))
    for s in mem:
        memw.append((s.key, Write(0, g0, s.cell, s.form, line=ctx.line)))
    for key, hh in list(keys.items()):
        if key in H: continue
        memw.append((key, Write(0, g0, hh['idx'], Opaque('pointer modified in a loop'), line=ctx.line)))
        fam = heap_family(ctx, key, writes.get(key, []), pairs, g0, gb, k, start, born)
        if fam is not None: memw.append((key, fam))
    # ---------------- candidate invariants (Houdini)
    cands = templates(ctx, allslots, k)
    surv = houdini(ctx, allslots, cands, dfacts, gb, g0, sn, k, ent_c, hd_c, bk_c, L, pairs, unresolved)
    for c in surv[0]: ctx.assume(c, g0)
    # ---------------- generic (and exit) iteration
    fr.env = dict(env0)
    for key, w in memw:
        w.loop = True; ctx.wr(key[0], key[1], w)
    hooks_now = hook_eval(ctx, hooks, g0, fr, h, LoopInfo(ctx, g0, fr.fn.name, line0, k, {s.name: s.form for s in slots}, keys, base))
    for i in surv[1]:
        if i < len(hooks_now):
            for c in inst_bound(ctx, hooks_now[i][1], k): ctx.assume(c, g0)
            if ctx.inv_inst and is_z(hooks_now[i][1]):
                from contract import add_universal
                add_universal(ctx, g0, zb(hooks_now[i][1]), ctx.inv_inst)
    phi = dict(fixed)
    for s in slots: phi[s.name] = s.build(s.form)
    ctx.loops_cut.append((fr.fn.name, line0, ', '.join('%s:%s' % (s.name, s.cls) for s in allslots)))
    ctx.last_loop = dict(k=k, slots=allslots, keys=keys)
    hk2 = ctx.seq
    ex, backs = ctx.run_level(fr, h, h, [Edge(g0, phi, None)])
    for key, ws in ctx.log.items():
        if key[0].uid > born and key[0].kind in ('alloca', 'heap', 'view'): continue
        if any(w.seq > hk2 for w in ws) and key not in keys: raise Unsupported('loop modifies more than the dry run found')
    # the spec-supplied invariants must be inductive: report as obligations
    if hooks and backs:
        gb2, nx2 = ctx.merge_edges(fr, h, backs)
        fin = hook_eval(ctx, hooks, gb2, fr, h, LoopInfo(ctx, gb2, fr.fn.name, line0, add(k, 1), {s.name: (nx2.get(s.name).path[-1] if s.kind == 'ptr' and isinstance(nx2.get(s.name), Ptr) else nx2.get(s.name)) for s in slots}, keys, base))
        for i, c in enumerate(fin):
            if len(c) > 2 and c[2]:
                if i < len(ent_c): ctx.oblige('loop invariant holds on entry: ' + c[0], ent_c[i][1], g0, 'invariant', line=line0)
                ctx.oblige('loop invariant is preserved: ' + c[0], c[1], gb2, 'invariant', line=line0)
    return ex

def pattern(ctx, key, ww, start, k):
    r, shape = key
    n = len(ww[0].idx)
    def inv(x): return x is not None and (is_c(x) or all(S_.SYMNO.get(s, 0) <= start for s in symbols(x)))
    idx = []
    cells = []
    t = leaf_type(ctx, r, shape)
    for w in ww:
        if w.vars or w.hav is not None and any(x is None for x in w.idx) or not all(inv(x) for x in w.idx): cells = None; break
        if not any(all(same(a, b) for a, b in zip(w.idx, c)) for c in cells): cells.append(tuple(w.idx))
    if cells is not None and len(cells) > 1:
        # several cells: must be provably distinct constants in some component
        for a in range(len(cells)):
            for b in range(a):
                if not any(is_c(x) and is_c(y) and x != y for x, y in zip(cells[a], cells[b])): cells = None; break
            if cells is None: break
    if cells is not None and len(cells) > 64: cells = None
    for jx in range(n):
        xs = [w.idx[jx] for w in ww]
        vs = {c for w in ww for (_, _, c, _, _) in w.vars}
        if jx not in vs and all(inv(x) for x in xs) and all(same(x, xs[0]) for x in xs): idx.append(xs[0])
        else: idx.append(None)
    return dict(idx=idx, cells=cells, t=t)

def merge_pat(a, b):
    ch = False
    for j, (x, y) in enumerate(zip(a['idx'], b['idx'])):
        if x is not None and (y is None or not same(x, y)): a['idx'][j] = None; ch = True
    if a['cells'] is not None:
        if b['cells'] is None: a['cells'] = None; ch = True
        else:
            for c in b['cells']:
                if not any(all(same(p, q) for p, q in zip(c, d)) for d in a['cells']):
                    a['cells'] = None; ch = True; break
    return ch

def affine(x, k, start):
    """x = a + b*k with b = -1 or 1..8, a loop-invariant; else None"""
    if is_c(x): return None
    kn = k.decl().name()
    if kn not in symbols(x): return None
    if any(S_.SYMNO.get(s, 0) > start and s != kn for s in symbols(x)): return None
    for b in (1, -1, 2, 3, 4, 5, 6, 7, 8):
        a = simp(sub(x, mul(k, b)))
        if not is_z(a) or kn not in symbols(a): return a, b
    return None

def bulk(ctx, key, ww, pat, hh, L, pairs, g0, k, start, sn):
    if not ww: return None
    r, shape = key
    n = len(ww[0].idx)
    f, wild = hh[1], hh[2]
    cand = None
    for comp in range(n):
        af = None; ok = True; offs = []
        for w in ww:
            if callable(w.val) or isinstance(w.val, (Ptr, PtrIte, NullT, Opaque, Packed)): return None
            x = w.idx[comp]
            if x is None: ok = False; break
            x = simp(subst(x, pairs)) if is_z(x) else x
            if any(v[2] == comp for v in w.vars): ok = False; break
            a = affine(x, k, start)
            if a is None: ok = False; break
            af = af or a
            if af[1] != a[1]: ok = False; break
            d = sub(a[0], af[0]); d = simp(d) if is_z(d) else d
            if not is_c(d): ok = False; break          # iterations write disjoint cells: offsets within one stride
            offs.append((a[0], int(d)))
            if max(o for _, o in offs) - min(o for _, o in offs) >= abs(a[1]): ok = False; break
        if ok: cand = (comp, [o[0] for o in offs], af[1]); break
    if cand is None: return None
    comp, aa_, b = cand
    out = []
    t = pat['t']
    for w, a in zip(ww, aa_):
        cellidx = add(a, mul(k, b))
        jv = z3.Int(fresh_name('j')); S_.SYMNO[jv.decl().name()] = start
        # rename inner vars
        vs = []
        ren = []
        for (kv, nn, c, aa, bb) in w.vars:
            nv = z3.Int(fresh_name('jv')); S_.SYMNO[nv.decl().name()] = start
            ren.append((kv, nv))
            vs.append((nv, nn, c, aa, bb))
        def tr(e):
            if not is_z(e): return e
            e = subst(e, ren) if ren else e
            e = subst(e, pairs)
            e = entry_reads(ctx, e, key, f, wild, comp, cellidx, sn, g0, t, pat)
            e = L.expr(e)
            return subst(e, [(k, jv)]) if is_z(e) else e
        hav = None
        if w.hav is not None:
            def hav(q, w=w, a=a, b=b, comp=comp):
                v = w.hav(q)
                if not is_z(v): return v
                v = L.expr(subst(v, pairs))
                j = zi(sub(q[comp], a) if b > 0 else sub(a, q[comp]))
                if b > 1: j = j / b
                return subst(v, [(k, j)]) if is_z(v) else v
        val = tr(w.val) if hav is None else None
        cond = tr(band(subst(w.cond, ren) if is_z(w.cond) else w.cond, w.guard.rel(g0)))
        idx = list(w.idx)
        idx2 = []
        for c, x in enumerate(idx):
            idx2.append(cellidx if c == comp else (tr(x) if is_z(x) else x))
        idx2[comp] = add(a, mul(jv, b))
        vs2 = [(jv, k, comp, a, b)] + [(nv, tr(nn), c, tr(aa), bb) for (nv, nn, c, aa, bb) in vs]
        out.append(Write(0, g0, idx2, val, vars=vs2, cond=cond, line=w.line, **({'hav': hav} if hav is not None else {})))
    return out

def heap_family(ctx, key, ww, pairs, g0, gb, k, start, born):
    """every iteration allocates an array and stores its address in a cell of its own: the arrays of the completed iterations
       (disjoint from each other and from everything else, contents unknown)"""
    if len(ww) != 1: return None
    w = ww[0]; v = w.val
    if w.vars or w.hav is not None or not isinstance(v, Ptr) or v.r.uid <= born or v.r.kind != 'heap' or v.r.nidx != 1 or tuple(v.path) != (0,) or w.cond is not True: return None
    if not gb.implies(w.guard): return None
    by = v.r.bytes if v.r.bytes is not None else v.r.length
    if is_z(by) and any(S_.SYMNO.get(x, 0) > start for x in symbols(by)): return None
    comp = None
    for c, x in enumerate(w.idx):
        x = simp(subst(x, pairs)) if is_z(x) else x
        a = affine(x, k, start)
        if a is not None and comp is None: comp = (c,) + tuple(a)
        elif is_z(x) and any(S_.SYMNO.get(y, 0) > start for y in symbols(x)): return None
    if comp is None: return None
    c, a, b = comp
    F = Region(v.r.name + '*', v.r.elty, v.r.length, 'heap', len(w.idx) + 1, ctx.seq); F.bytes = v.r.bytes
    jv = z3.Int(fresh_name('j')); S_.SYMNO[jv.decl().name()] = start
    idx = [subst(x, pairs) if is_z(x) else x for x in w.idx]; idx[c] = add(a, mul(jv, b))
    return Write(0, g0, idx, None, vars=[(jv, k, c, a, b)], hav=(lambda q, F=F: Ptr(F, tuple(q) + (0,))), line=w.line)

def entry_reads(ctx, e, key, f, wild, comp, cellidx, sn, g0, t, pat):
    """reads of the array at this iteration's own cell see the value from before the loop"""
    if f.name() not in symbols(e) or comp not in wild: return e
    pos = wild.index(comp)
    apps = []
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == f.name(): apps.append(x)
            st += x.children()
    ps = []
    for x in apps:
        d = sub(unz(x.arg(pos)), cellidx)
        d = simp(d) if is_z(d) else d
        if is_c(d) and d == 0:
            idx = list(key_idx(key, x, wild, pat))
            # fixed components are unaffected by the loop pattern
            if any(i is None for i in idx):
                pass
            else:
                v = ctx.read(key[0], key[1], tuple(idx), t, g0, sn[0])
                if is_c(v): v = zr(v) if z3.is_real(x) else zi(v)
                if is_z(v): ps.append((x, v))
    if ps: e = z3.substitute(e, *ps)
    return e
def key_idx(key, app, wild, pat):
    n = sum(1 for x in key[1] if x == '*')
    out = [None] * n
    for j, w in enumerate(wild): out[w] = unz(app.arg(j))
    for j in range(n):
        if out[j] is None:
            out[j] = pat['idx'][j]
    return out

def templates(ctx, slots, k):
    out = []
    for s in slots:
        if s.cls in ('linear', 'unchanged'): continue
        x = s.sym
        if s.sort == B:
            continue
        z = 0
        out.append((s, 'ge0', lambda v: cmp('ge', v, 0)))
        if s.sort == R: out.append((s, 'gt0', lambda v: cmp('gt', v, 0)))
        out.append((s, 'geinit', lambda v, i=s.init: cmp('ge', v, i)))
        out.append((s, 'leinit', lambda v, i=s.init: cmp('le', v, i)))
        if s.sort == I:
            out.append((s, 'leinit+k', lambda v, i=s.init: None))
    return out

def houdini(ctx, allslots, cands, dfacts, gb, g0, sn, k, ent_c, hd_c, bk_c, L, pairs, unresolved):
    """returns (facts at header k for slot templates, indices of surviving hook candidates)"""
    import solve
    cs = []
    for (s, nm, f) in cands:
        if nm == 'leinit+k':
            i = s.init
            pre = cmp('le', s.sym, add(i, k)); post = cmp('le', s.next, add(add(i, k), 1)) if not isinstance(s.next, (Opaque, type(None))) else False
            ini = True
            fin = cmp('le', s.form, add(i, k))
        else:
            if s.next is None or isinstance(s.next, (Opaque, Ptr, PtrIte, NullT, Packed, Agg)): continue
            ini, pre, post, fin = f(s.init), f(s.sym), f(s.next), f(s.form)
        if ini is False or post is False: continue
        cs.append([ini, pre, post, fin, None])
    ns = len(cs)
    for i in range(min(len(hd_c), len(bk_c), len(ent_c))):
        cs.append([ent_c[i][1], hd_c[i][1], bk_c[i][1], None, i])
    if not cs: return [], []
    base = list(ctx.facts)
    # known closed forms of the other slots (inductive by construction)
    known = []
    for s in allslots:
        if s.cls in ('linear', 'unchanged'): known.append(s.sym == (zr(s.form) if s.sort == R else zb(s.form) if s.sort == B else zi(s.form)))
    live = list(cs)
    import os
    dbg = os.environ.get('HDBG')
    if dbg and hd_c:
        for c in cs:
            if c[4] is not None and dbg in hd_c[c[4]][0]:
                print('CAND', hd_c[c[4]][0], '\n  entry', c[0] is True or solve.quick(ctx, base, [zb(g0.expr())], zb(c[0]), 5000))
                hyp = base + dfacts + known + [k >= 0] + [zb(y) for x in cs if x[4] is not None for y in inst_bound(ctx, x[1], k) if (x[0] is True or solve.quick(ctx, base, [zb(g0.expr())], zb(x[0]), 400))]
                ok = c[2] is True or solve.quick(ctx, hyp, [zb(gb.expr())], zb(c[2]), 20000)
                print('  step', ok)
                if not ok:
                    fs = solve.relevant(hyp, [zb(gb.expr()), zb(c[2])], 4); ax = solve.instantiate(ctx, fs + [zb(gb.expr()), zb(c[2])], [], rounds=1)
                    sv = z3.Solver(); sv.set('timeout', 20000)
                    for f in fs + ax: sv.add(f)
                    sv.add(zb(gb.expr())); sv.add(z3.Not(zb(c[2])))
                    r = sv.check(); print('  ', r, len(fs), len(ax)); print('  GOAL', z3.simplify(zb(c[2])));
                    if r == z3.sat: print('  MODEL', sv.model())
    if len(live) > 6: live = model_filter(ctx, base, [zb(g0.expr())], live, 0, ())
    live = [c for c in live if c[0] is True or solve.quick(ctx, base, [zb(g0.expr())], zb(c[0]), retry=8000 if c[4] is not None else 0)]
    while live:
        hyp = base + dfacts + known + [k >= 0]
        if len(live) > 6: live = model_filter(ctx, hyp, [zb(gb.expr())], live, 2, (1,), k)
        hyp = hyp + [zb(x) for c in live for x in inst_bound(ctx, c[1], k)]
        bad = [c for c in live if c[2] is not True and not solve.quick(ctx, hyp, [zb(gb.expr())], zb(c[2]), retry=8000 if c[4] is not None else 0)]
        if not bad: break
        live = [c for c in live if c not in bad]
    return [zb(c[3]) for c in live if c[3] is not None and c[3] is not True], [c[4] for c in live if c[4] is not None]

def inst_bound(ctx, c, k):
    """a candidate with a bound variable is an invariant for all its values: neighbouring instances"""
    out = [c]
    if not ctx.inv_inst or not is_z(c): return out
    names = symbols(c)
    for n in ctx.inv_inst:
        if n not in names: continue
        v = z3.Int(n)
        for w in (v - 1, v + 1, k, k - 1, k + 1): out.append(z3.substitute(c, (v, w)))
    return out

def model_filter(ctx, hyp, guard, live, goal, assumed, k=None):
    """drops candidates falsified by a model of the hypotheses (an optimisation of the Houdini loop; what remains is still checked one by one)"""
    import solve
    for _ in range(60):
        gs = [zb(c[goal]) for c in live if c[goal] is not True]
        if not gs: return live
        hs = hyp + [zb(x) for c in live for j in assumed if not isinstance(c[j], bool) for x in inst_bound(ctx, c[j], k)]
        fs = solve.relevant(hs, guard + gs, 4)
        ax = solve.instantiate(ctx, fs + guard + gs, [], rounds=1)
        s = z3.Solver(); s.set('rlimit', 4500000); s.set('timeout', 12000)
        for f in fs + ax + guard: s.add(f)
        s.add(z3.Or(*[z3.Not(x) for x in gs]))
        if s.check() != z3.sat: return live
        m = s.model()
        keep = [c for c in live if c[goal] is True or not z3.is_false(m.eval(zb(c[goal]), model_completion=True))]
        if len(keep) == len(live): return live
        live = keep
    return live
