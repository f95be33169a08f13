"""Function contracts: verified once against the body found in /repo, used at call sites."""
import z3, re
from fractions import Fraction
from ir import *
from sym import *
from vc import *
import vc

class Loc:
    """a writable object: ptr of type ty; n = None (one object), int/term (that many consecutive), 'all'
       (every element), 'rows' (every element of every row), 'any' (all indices arbitrary)"""
    def __init__(s, p, ty, n=None): s.p, s.ty, s.n = p, ty, n

class Globals(Loc):
    """any global object (and what it points to) except those named; a caller keeps what it knows about globals only for the exceptions"""
    def __init__(s, *exc): s.exc = exc; s.p = s.ty = s.n = None
    def covers(s, r): return r.name.startswith('@') and not any(x in r.name for x in s.exc)

class Statics(Globals):
    """function-local static objects (not visible to any other function)"""
    def covers(s, r): return r.name.startswith('@_ZZ')

class Vec(Loc):
    """the vectors at p (all indices arbitrary), elements of type ty"""
    def __init__(s, p, ty): s.p, s.ty, s.n = p, ty, 'any'
    def cells(s):
        import models
        out = []
        for kind, t in (('$n', INT(64)), ('$v', s.ty)):
            sh, ix = models.vec_cells(s.p, kind)
            out.append((sh + (('*',) if kind == '$v' else ()), (None,) * (len(ix) + (kind == '$v')), t))
        return out

class State:
    """reading memory at one point of the execution"""
    def __init__(s, ctx, g, seq=None): s.ctx, s.g, s.seq = ctx, g, seq
    def at(s, p, *idx, et=None):
        """pointer to p[i0][i1].. where p is a C pointer to elements of type et (default double);
           strings select members, an index after a pointer member dereferences it"""
        c = s.ctx
        sv = c.check_bounds; c.check_bounds = False
        try: return s.at_(p, *idx, et=et)
        finally: c.check_bounds = sv
    def at_(s, p, *idx, et=None):
        c = s.ctx
        ix = list(idx)
        if ix and not isinstance(ix[0], str):
            i0 = ix.pop(0)
            p = c.gep(et or DBL, p, [i0])
        while ix:
            i = ix.pop(0)
            t = c.type_at(p)
            if t is not None and t.res().k == 'ptr':
                p = c.load(p, PTR, s.g, s.seq)
                if isinstance(i, str): p = c.fld(p, '', i)
                elif isinstance(p, PtrIte):
                    if ix: raise IRError('access path through a conditional pointer')
                    return PtrIte([(cc, Ptr(q.r, q.path[:-1] + (add(q.path[-1], i),)) if isinstance(q, Ptr) else q) for cc, q in p.alts])
                elif not isinstance(p, Ptr): return p
                else: p = Ptr(p.r, p.path[:-1] + (add(p.path[-1], i),))
            elif isinstance(i, str): p = c.fld(p, '', i)
            elif t is not None and t.res().k == 'array': p = Ptr(p.r, p.path + (i,))
            else: raise IRError('bad access path in a specification')
        return p
    def ld(s, p, *idx, et=None, ty=None):
        p = s.at(p, *idx, et=et)
        c = s.ctx
        if ty is None and isinstance(p, PtrIte):
            ts = [c.type_at(q) for _, q in p.alts if isinstance(q, Ptr) and q.r.elty is not None]
            ty = ts[0] if ts else DBL
        if ty is None and isinstance(p, (Opaque, NullT)): return fresh_real('undef')
        if ty is None:
            ty = c.type_at(p)
            while ty.res().k == 'array': ty = ty.res().el
        sv = c.check_bounds; c.check_bounds = False
        try: return c.load(p, ty, s.g, s.seq)
        finally: c.check_bounds = sv

class Contract:
    name = None            # qualified source name
    nparams = None
    src = None
    trusted = False
    verifying = False      # True while the body is being checked (a precondition used at a call site may then be stated for an arbitrary index)
    opts = {}
    rules = {}             # facts about the abstract functions of a trusted contract, instantiated per term
    bound = ()             # names of integer variables for which the postconditions hold universally (used at call sites)
    def __init__(s): pass
    # to be provided
    def make(s, u): raise NotImplementedError      # -> args for verification
    def pre(s, u, a, st): return []                # [(name, cond)]
    def frame(s, u, a): return []
    def post(s, u, a, old, new, ret): return []
    def uses(s): return []                         # contracts of callees
    def hooks(s, u, a): return []
    def ret_type(s, ins): return ins.ty
    # ------------------------------------------------ call site
    def at_call(s, ctx, args, g, ins):
        old = State(ctx, g, ctx.seq)
        for nm, c in s.pre(ctx, args, old):
            ctx.oblige('precondition of %s: %s' % (s.name, nm), c, g, 'pre')
        for l in s.frame(ctx, args):
          if isinstance(l, Vec):
              for sh, ix, t in l.cells(): ctx.havoc(l.p.r, sh, ix, t, g, s.name.split('::')[-1])
          elif not isinstance(l, Globals): ctx.havoc_ptr(l.p, l.ty, g, l.n, name=s.name.split('::')[-1])
        ret = ctx.fresh_of(ins.ty, 'ret_' + s.name.split('::')[-1]) if ins.ty is not VOID else None
        new = State(ctx, g, None)
        ret = s.ret_override(ctx, args, g, ret)
        for nm, c in s.post(ctx, args, old, State(ctx, g, ctx.seq), ret):
            if not s.bound or isinstance(c, bool) or not add_universal(ctx, g, zb(c), s.bound): ctx.assume(c, g)
        s.ghost(ctx, args, g, old, ret)
        return ret, g
    _seq0 = None
    def entry(s, ctx): return State(ctx, Guard(), ctx.seq if s._seq0 is None else s._seq0)   # state before the call (for frame)
    def ret_override(s, ctx, args, g, ret): return ret
    def ghost(s, ctx, args, g, old, ret): pass
    # ------------------------------------------------ verification of the body
    def verify(s, prog, contracts, **kw):
        opts = dict(s.opts); opts.update(kw)
        hooks_lifetimes = opts.pop('lifetimes', False)
        quant = opts.pop('quant_cont', False); inst = opts.pop('inst', ()); steps = opts.pop('steps', False); pow_uf = opts.pop('pow_uf', False)
        ctx = Ctx(prog, {}, **opts)
        ctx.lifetimes = hooks_lifetimes; ctx.quant_cont = quant; ctx.inv_inst = inst; ctx.steps = steps; ctx.pow_uf = pow_uf      # pow_uf: powers stay abstract even for small integer exponents
        ctx.rules = {}
        for c in s.uses():
            ctx.contracts[c.name] = c.at_call
            ctx.rules.update(c.rules)
        ctx.rules.update(s.rules)
        fn = prog.find1(s.name, **({'nparams': s.nparams} if s.nparams else {}), **({'src': s.src} if s.src else {}))
        fn.parse()
        ctx.fn = fn
        s.fnobj = fn; s.verifying = True
        a = s.make(ctx)
        cs = s.case(ctx, a); g = Guard().land(simp(cs) if is_z(cs) else cs)
        st0 = State(ctx, g, None)
        pre = s.pre(ctx, a, st0)
        for nm, c in pre: ctx.assume(zb(c) if not isinstance(c, bool) else c)
        ctx.npre = len(ctx.facts)
        seq0 = ctx.seq
        old = State(ctx, g, seq0)
        ctx.inv_hooks = s.hooks(ctx, a)
        s.before(ctx, a)
        ret, rg = ctx.call_fn(fn, a, g)
        ctx.fnstack.append(s.name)
        if rg is not None:
            new = State(ctx, rg, None)
            for nm, c in s.post(ctx, a, State(ctx, rg, seq0), new, ret):
                ctx.oblige(nm, c, rg, 'post', post=True)
            s.check_frame(ctx, a, seq0, rg)
        for eg, why, line in ctx.exits:
            for nm, c in s.exits(ctx, a, State(ctx, eg, seq0)):
                ctx.oblige(nm, c, eg, 'exit', line=line, post=True)
        ctx.rg = rg
        return ctx
    def exits(s, ctx, a, old): return []           # [(name, cond)] that must hold where the program is stopped
    def before(s, ctx, a): pass
    def case(s, ctx, a): return True               # part of the precondition, known while the body is executed (decides branches)
    def check_frame(s, ctx, a, seq0, rg):
        s._seq0 = seq0
        locs = s.frame(ctx, a)
        s._seq0 = None
        if locs is None: return
        for (r, shape), ws in list(ctx.log.items()):
            if r.kind in ('alloca', 'heap', 'view') or getattr(r, 'ghost', False): continue
            for w in ws:
                if w.seq <= seq0 or w.loop: continue
                ok = []
                for l in locs:
                    c = loc_covers(ctx, l, r, shape, w)
                    if c is not False: ok.append(c)
                c = bor(*ok)
                if c is True: continue
                ctx.oblige('%s writes only what it may (write to %s at line %d)' % (s.name, r.name, w.line), band_vars(w, c), w.guard, 'frame', line=w.line)

def add_universal(ctx, g, c, names):
    """the caller may use c for all values of its bound variables: instantiated per term"""
    import solve
    apps = solve.apps(c)
    vs = []
    seen, stk = set(), [c]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names: vs.append(x)
        stk += x.children()
    if not vs: return False
    f = z3.Implies(zb(g.expr()), c)
    for t in apps:
        pos = {}
        for i in range(t.num_args()):
            for v in vs:
                if t.arg(i).eq(v): pos.setdefault(v.get_id(), (i, v))
        if len(pos) < len(vs): continue
        def rule(a, pos=list(pos.values()), f=f): return z3.substitute(f, *[(v, a.arg(i)) for i, v in pos])
        add_rule(ctx, t.decl().name(), rule)
    return True
def add_rule(ctx, name, rule):
    old = ctx.rules.get(name)
    if old is None: ctx.rules[name] = rule; return
    def both(t):
        out = []
        for r in (old, rule):
            x = r(t)
            if x is not None: out += x if isinstance(x, list) else [x]
        return out
    ctx.rules[name] = both

def band_vars(w, c): 
    if not w.vars or isinstance(c, bool): return c
    rng = band(*[band(cmp('ge', v[0], 0), cmp('lt', v[0], v[1])) for v in w.vars])
    return bimp(rng, c)

def loc_covers(ctx, l, r, shape, w):
    if isinstance(l, Globals): return l.covers(r)
    if isinstance(l, Vec): return l.p.r is r and any(sh == shape for sh, ix, t in l.cells())
    p = l.p
    alts = p.alts if isinstance(p, PtrIte) else [(True, p)]
    out = []
    for gc, q in alts:
        if not isinstance(q, Ptr) or q.r is not r: continue
        psh = tuple('*' if not isinstance(x, tuple) else x[1] for x in q.path)
        if shape[:len(psh)] != psh: continue
        pidx = [x for x in q.path if not isinstance(x, tuple)]
        cs = [gc]
        for j, x in enumerate(pidx):
            y = w.idx[j]
            last = j == len(pidx) - 1
            if isinstance(l.n, str) and l.n == 'any': continue
            if isinstance(l.n, str) and l.n == 'rows' and j >= len(pidx) - 2: continue
            if last and isinstance(l.n, str): continue
            if y is None: cs.append(False); break
            if last and l.n is not None:
                cs.append(band(cmp('ge', y, x), cmp('lt', y, add(x, l.n))))
            else: cs.append(cmp('eq', y, x))
        out.append(band(*cs))
    return bor(*out)

# ------------------------------------------------------------ helpers for specifications
def find_struct(ctx, cname):
    for m in [ctx.fn.mod] + list(ctx.prog.mods.values()):
        for pre in ('class.', 'struct.'):
            try: return m.struct(pre + cname)
            except IRError: pass
    raise IRError('type %s not found' % cname)
def OBJ(ctx, cname, name, n=1):
    return Ptr(Region(name, find_struct(ctx, cname), n, 'param'), (0,))
def AS(ctx, p, cname):
    """give an untyped object (seen only through an opaque pointer so far) its class"""
    for q in ([x for _, x in p.alts] if isinstance(p, PtrIte) else [p]):
        if isinstance(q, Ptr) and q.r.elty is None: ctx.settype(q.r, find_struct(ctx, cname))
    return p
def ARR(name, ty, n): return Ptr(Region(name, ty, n, 'param'), (0,))
def GLOB(ctx, name, mod=None): return Ptr(ctx.gl(name, mod), (0,))
I32 = INT(32)
def STR(ctx, text):
    import models
    return models.strlit(text)
