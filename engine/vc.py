"""Verification-condition generator: symbolic execution of the IR of /repo's
functions, function by function.

 * a call to a function that has a contract is replaced by the contract
   (precondition becomes an obligation, frame is havocked, postcondition assumed);
 * a call to a function without contract is inlined (so extracting a helper
   changes nothing);
 * loops with a small constant trip count are unrolled completely; every other loop
   is cut at its header: the loop-carried scalars and memory get a closed form
   that is inductive by construction (linear, last-value, sum, element-wise
   writes) where one exists, and are otherwise havocked and constrained by the
   inductive subset of the candidate invariants.  No loop is bounded."""
import re, time, z3
from fractions import Fraction
from ir import *
from sym import *
import sym as S_

MAXDEPTH = 40

class Unsupported(IRError): pass

# ---------------------------------------------------------------- guards
class Guard:
    __slots__ = ('l',)
    def __init__(s, l=None): s.l = l or {}
    @staticmethod
    def lits(c, pol=True):
        while z3.is_not(c): c, pol = c.arg(0), not pol
        if pol and z3.is_and(c):
            for x in c.children(): yield from Guard.lits(x, True)
        elif not pol and z3.is_or(c):
            for x in c.children(): yield from Guard.lits(x, False)
        else: yield c, pol
    def land(s, c):
        """conjunction; None if syntactically false"""
        if isinstance(c, bool): return s if c else None
        n = None
        for e, p in Guard.lits(c):
            if z3.is_true(e) or z3.is_false(e):
                if z3.is_true(e) != p: return None
                continue
            k = e.get_id()
            o = (n or s.l).get(k)
            if o is not None:
                if o[1] != p: return None
                continue
            if n is None: n = dict(s.l)
            n[k] = (e, p)
        return s if n is None else Guard(n)
    def known(s, c):
        if isinstance(c, bool): return c
        e, p = c, True
        while z3.is_not(e): e, p = e.arg(0), not p
        o = s.l.get(e.get_id())
        if o is not None: return o[1] == p
        if p and z3.is_and(e) or (not p and z3.is_or(e)):
            ks = [s.known(x if p else z3.Not(x)) for x in e.children()]
            if all(k is True for k in ks): return True
            if any(k is False for k in ks): return False
        elif p and z3.is_or(e) or (not p and z3.is_and(e)):
            ks = [s.known(x if p else z3.Not(x)) for x in e.children()]
            if any(k is True for k in ks): return True
            if all(k is False for k in ks): return False
        return None
    def expr(s): return band(*[e if p else z3.Not(e) for e, p in s.l.values()])
    def rel(s, base):
        """literals not already in base, as a condition"""
        return band(*[e if p else z3.Not(e) for k, (e, p) in s.l.items() if base.l.get(k, (0, None))[1] is not p])
    def conflicts(s, o):
        a, b = (s.l, o.l) if len(s.l) < len(o.l) else (o.l, s.l)
        for k, (e, p) in a.items():
            x = b.get(k)
            if x is not None and x[1] != p: return True
        return False
    def implies(s, o):
        """syntactic: all literals of o are in s"""
        for k, (e, p) in o.l.items():
            x = s.l.get(k)
            if x is None or x[1] != p: return False
        return True
    @staticmethod
    def merge(gs):
        gs = list(gs)
        if len(gs) == 1: return gs[0]
        ch = True
        while ch and len(gs) > 1:
            ch = False
            for i in range(len(gs)):
                for j in range(i + 1, len(gs)):
                    a, b = gs[i], gs[j]
                    if a.implies(b): m = b
                    elif b.implies(a): m = a
                    else:
                        m = None
                        da = [k for k, (e, p) in a.l.items() if b.l.get(k, (0, None))[1] is not p]
                        db = [k for k, (e, p) in b.l.items() if a.l.get(k, (0, None))[1] is not p]
                        if len(da) == 1 and da == db:
                            m = Guard({k: v for k, v in a.l.items() if k != da[0]})
                        elif len(da) == 1 and da[0] in db:
                            # a = C&x ; b = C&!x&R  ->  C & (x or R)
                            pass
                    if m is not None:
                        gs[i] = m; del gs[j]; ch = True; break
                if ch: break
        if len(gs) == 1: return gs[0]
        com = {k: v for k, v in gs[0].l.items() if all(g.l.get(k, (0, None))[1] is v[1] for g in gs[1:])}
        base = Guard(com)
        d = bor(*[g.rel(base) for g in gs])
        d = simp(d)
        r = base.land(d)
        return r if r is not None else base

class Write:
    """guarded, possibly parametrised write.
       vars: [(sym k, n, comp position, a, b)] : index component comp = a + b*k, 0<=k<n"""
    __slots__ = ('seq', 'guard', 'vars', 'idx', 'val', 'cond', 'hav', 'line', 'loop')
    def __init__(s, seq, guard, idx, val, vars=(), cond=True, hav=None, line=0):
        s.seq, s.guard, s.idx, s.val, s.vars, s.cond, s.hav, s.line = seq, guard, tuple(idx), val, tuple(vars), cond, hav, line
        s.loop = False      # summary of a loop (its iterations are in the log, too)

class Obl:
    __slots__ = ('name', 'kind', 'fn', 'line', 'guard', 'goal', 'nf', 'ns', 'facts', 'res', 'tm', 'solver', 'model', 'post')
    def __init__(s, **k):
        s.res = s.tm = s.solver = s.model = None; s.post = False
        for a, b in k.items(): setattr(s, a, b)

class Frame:
    def __init__(s, fn, depth):
        s.fn, s.env, s.rets, s.depth = fn, {}, [], depth
        s.allocas = []

class Edge:
    __slots__ = ('g', 'phi', 'src')
    def __init__(s, g, phi, src): s.g, s.phi, s.src = g, phi, src

_hv = {}

class Ctx:
    def __init__(s, prog, contracts=None, check_bounds=True, unroll=12, sym_unroll=0):
        s.prog = prog
        s.contracts = contracts or {}
        s.log = {}                 # (region, shape) -> [Write]
        s.seq = 0
        s.facts = []
        s.axioms = {}              # id -> (term, fact)
        s.obls = []
        s.globals = {}
        s.autos = {}
        s.lens = {}
        s.exits = []
        s.assumptions = set()
        s.inlined = set()
        s.called = set()
        s.check_bounds, s.unroll, s.sym_unroll = check_bounds, unroll, sym_unroll
        s.dry = 0
        s.hooks = []
        s.cur = None
        s.line = 0
        s.exit_guard = None
        s.fnstack = []
        s.strlits = {}
        s.freed = {}
        s.rngno = 0
        s.allocs = []
        s.loops_cut = []
        s.track_uninit = False
        s.lifetimes = False
        s.inline_only = None
        s.quant_cont = False       # add the for-all form of continuation conditions
        s.opaque_ok = True
        s.pure = {}                # demangled base name -> (ufname) treated as pure UF
        s.ghost_writes = []
        s.steps = False           # counters with a visible constant step get their closed form before the body is examined
        s.monitors = []           # ghost code run at every store: f(ctx, region, shape, idx, type, new value, guard)
        s.frames = []              # functions being executed (outermost first)
        s.schemas = []; s.vtypes = {}
        s.rngs = []
        s.inv_hooks = []
        s.inv_inst = ()            # bound variables of candidate invariants that are instantiated at neighbouring values
    # ------------------------------------------------ regions
    def region(s, name, elty, length=1, kind='param', nidx=1):
        return Region(name, elty, length, kind, nidx, s.seq)
    def ptr(s, r, *path):
        return Ptr(r, path or (0,))
    def glob(s, mod, name):
        g = mod.glob(name)
        if g is None: raise IRError('global ' + name)
        key = (mod.src, name) if g.internal else name
        if key in s.globals: return s.globals[key]
        gd = g
        if g.ext:
            for m in s.prog.mods.values():
                x = m.glob(name) if name in m.globals else None
                if x is not None and not x.ext: gd = x; break
        r = Region('@' + name, gd.ty, 1, 'global', 1, -1)
        if gd.init is not None and (gd.const or gd.internal and gd.ty.res().k in ('double', 'float', 'int') and gd.mod.never_written(name)):
            init = gd.init
            r.base = lambda shape, idx, sort, init=init, ty=gd.ty: s.const_read(init, ty, shape, idx)
        s.globals[key] = r
        return r
    def gl(s, name, mod=None):
        """global region by source name (searching all modules, mangled or not)"""
        if mod:
            m = s.prog.mods[mod]
            for n in (name, '_ZL%d%s' % (len(name), name)):
                if n in m.globals: return s.glob(m, n)
            raise IRError('global %s not found' % name)
        for m in s.prog.mods.values():
            for n in (name, '_ZL%d%s' % (len(name), name)):
                if n in m.globals:
                    g = m.glob(n)
                    if not g.ext: return s.glob(m, n)
        for m in s.prog.mods.values():
            if name in m.globals: return s.glob(m, name)
        raise IRError('global %s not found' % name)
    def const_read(s, init, ty, shape, idx):
        it = list(idx[1:])
        def walk(init, ty, shape):
            ty = ty.res()
            if init[0] == 'zero':
                t = ty
                for x in shape:
                    t = t.res(); t = t.el if x == '*' else t.fields[x]
                t = t.res()
                return Fraction(0) if t.k in ('double', 'float') else NULL if t.k == 'ptr' else 0
            if init[0] == 'c':
                v = init[1]
                return Fraction(v) if ty.k in ('double', 'float') else v
            if init[0] == 'agg':
                x = shape[0]
                if x == '*':
                    i = it.pop(0)
                    if is_c(i):
                        if not 0 <= i < len(init[1]): return None
                        return walk(init[1][i][1], init[1][i][0], shape[1:])
                    save = list(it); out = None
                    for j, (et, ev) in enumerate(init[1]):
                        it[:] = list(save)
                        v = walk(ev, et, shape[1:])
                        if v is None: return None
                        out = v if out is None else ite(cmp('eq', i, j), v, out)
                    return out
                return walk(init[1][x][1], init[1][x][0], shape[1:])
            if init[0] == 'cstr':
                i = it.pop(0)
                bs = s.cstr_bytes(init[1])
                if is_c(i) and 0 <= i < len(bs): return bs[i]
                return None
            return None
        return walk(init, ty, shape[1:])
    @staticmethod
    def cstr_bytes(t):
        t = t[2:-1] if t[0] == 'c' else t[1:-1]
        out = []; i = 0
        while i < len(t):
            if t[i] == '\\': out.append(int(t[i+1:i+3], 16)); i += 3
            else: out.append(ord(t[i])); i += 1
        return out
    def cstring(s, p):
        """python string for a pointer to a constant C string"""
        if isinstance(p, Ptr) and p.r.kind == 'global':
            for k, r in s.globals.items():
                if r is p.r:
                    nm = k[1] if isinstance(k, tuple) else k
                    for m in s.prog.mods.values():
                        if isinstance(k, tuple) and m.src != k[0]: continue
                        g = m.glob(nm) if nm in m.globals else None
                        if g is not None and g.init and g.init[0] == 'cstr':
                            return ''.join(map(chr, s.cstr_bytes(g.init[1]))).rstrip('\0')
                        if g is not None and g.init and g.init[0] == 'zero': return ''
        return None
    # ------------------------------------------------ pointer navigation
    def type_at(s, p):
        t = p.r.elty
        if t is None: return None
        for x in p.path[p.r.nidx:]:
            t = t.res()
            t = t.fields[x[1]] if isinstance(x, tuple) else t.el
        return t
    def settype(s, r, t):
        r.elty = t
        if r.length is None and r.bytes is not None:
            sz = sizeof(t)
            q = exact_div(r.bytes, sz)
            r.length = q if q is not None else sdiv(r.bytes, sz)
    def tsame(s, a, b):
        a, b = a.res(), b.res()
        if a.k != b.k: return False
        if a.k == 'struct':
            if a.name and b.name and a.name == b.name: return True
            na = re.sub(r'\.base$', '', a.name or ''); nb = re.sub(r'\.base$', '', b.name or '')
            if (not na) != (not nb):        # how a small structure is passed and returned: an anonymous one with the same members
                return len(a.fields) == len(b.fields) and all(x.res().k == y.res().k != 'struct' and x.res().k != 'array' and x.key() == y.key() for x, y in zip(a.fields, b.fields))
            return bool(na) and na == nb
        return a.key() == b.key()
    def gep(s, bt, p, idx):
        if isinstance(p, PtrIte):
            return PtrIte([(g, s.gep(bt, q, idx)) for g, q in p.alts])
        if isinstance(p, (NullT, Opaque)):
            return p if isinstance(p, Opaque) else Opaque('gep on null')
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        if p.r.elty is None: s.settype(p.r, bt)
        b = bt.res()
        e = p.r.elty.res()
        if b.k == 'array' and p.r.kind == 'global' and e.k == 'struct' and not e.name and p.r.base is None and sizeof(e) == sizeof(b) and not any(r is p.r for r, _ in s.log):
            p.r.elty = bt               # a partially initialised array: its initialiser has an anonymous structure type
        if b.k == 'int' and b.n == 8:
            t = s.type_at(p).res()
            if not (t.k == 'int' and t.n == 8) and not (t.k == 'array' and t.el.res().k == 'int' and t.el.res().n == 8):
                i0 = idx[0]
                if is_c(i0): return s.byte_off(p, i0)
                t0 = s.type_at(p); sz = sizeof(t0); q = exact_div(i0, sz)
                if q is not None and p.path and not isinstance(p.path[-1], tuple):
                    return Ptr(p.r, p.path[:-1] + (add(p.path[-1], q),))
                if 'basic_' in (t.name or '') or p.r.name.startswith(('@_ZSt4c', '@_ZSt3c')): return Opaque('stream')
                raise Unsupported('symbolic byte offset')
        path = list(p.path)
        # descend / ascend until the static type matches
        for _ in range(12):
            t = s.type_at(Ptr(p.r, path))
            if s.tsame(t, bt): break
            t = t.res()
            if t.k == 'struct' and t.fields: path.append(('f', 0))
            elif t.k == 'array': path.append(0)
            else:
                # ascend past zero steps
                path = list(p.path)
                while len(path) > p.r.nidx and (isinstance(path[-1], tuple) and path[-1][1] == 0 or (is_c(path[-1]) and path[-1] == 0)):
                    path.pop()
                    if s.tsame(s.type_at(Ptr(p.r, path)), bt): break
                else:
                    raise Unsupported('gep type %s at %s' % (bt, Ptr(p.r, p.path)))
                break
        else: raise Unsupported('gep type')
        i0 = idx[0]
        if not (is_c(i0) and i0 == 0):
            if path and not isinstance(path[-1], tuple): path[-1] = add(path[-1], i0)
            else: raise Unsupported('pointer arithmetic on a non-array object')
        t = bt
        for i in idx[1:]:
            t = t.res()
            if t.k == 'struct':
                if not is_c(i): raise Unsupported('symbolic field')
                path.append(('f', int(i))); t = t.fields[int(i)]
            else:
                path.append(i); t = t.el
        return Ptr(p.r, path)
    def byte_off(s, p, off):
        path = list(p.path)
        t = s.type_at(p)
        while True:
            if off == 0: return Ptr(p.r, path)
            t = t.res(); sz = sizeof(t)
            if off < 0 or off >= sz:
                # step over whole elements
                if path and not isinstance(path[-1], tuple) and off % sz == 0:
                    path[-1] = add(path[-1], off // sz); return Ptr(p.r, path)
                if path and not isinstance(path[-1], tuple):
                    path[-1] = add(path[-1], off // sz); off = off % sz; continue
                # ascend one field
                if path and isinstance(path[-1], tuple):
                    f = path.pop(); pt = s.type_at(Ptr(p.r, path))
                    off += field_offsets(pt)[f[1]]; t = pt; continue
                raise Unsupported('byte offset')
            if t.k == 'struct':
                offs = field_offsets(t)
                for i in range(len(offs) - 1, -1, -1):
                    if offs[i] <= off: break
                path.append(('f', i)); off -= offs[i]; t = t.fields[i]
            elif t.k == 'array':
                es = sizeof(t.el); path.append(off // es); off %= es; t = t.el
            else: raise Unsupported('byte offset in scalar')
    def fld(s, p, cname, *members):
        """pointer to member (names resolved through debug info); members may also be ints = array index"""
        for m in members:
            t = s.type_at(p)
            if isinstance(m, str):
                tr = t.res()
                md = tr.mod or t.mod
                cn = cname
                i = None
                for mm in [md] + list(s.prog.mods.values()):
                    try: i = mm.member_index(t, re.sub(r'^(class|struct)\.|\.base$', '', tr.name or ''), m); break
                    except (IRError, ValueError): pass
                if i is None and tr.k == 'struct' and tr.fields and tr.fields[0].res().k == 'struct':
                    p = s.fld(Ptr(p.r, p.path + (('f', 0),)), cname, m); continue      # base class
                if i is None: raise IRError('member %s of %s not found' % (m, tr.name))
                p = Ptr(p.r, p.path + (('f', i),))
            else:
                p = Ptr(p.r, p.path + (m,))
        return p
    def leafs(s, t, pre=()):
        """scalar leaf paths of a type; arrays contribute ('*', n)"""
        t = t.res()
        if t.k == 'struct':
            for i, f in enumerate(t.fields): yield from s.leafs(f, pre + (('f', i),))
        elif t.k == 'array':
            yield from s.leafs(t.el, pre + (('*', t.n),))
        else: yield pre, t
    # ------------------------------------------------ facts / obligations
    def assume(s, c, g=None):
        if isinstance(c, bool):
            if c: return
            c = z3.BoolVal(False)
        if g is not None and g.l: c = z3.Implies(zb(g.expr()), c)
        s.facts.append(c)
    def axiom(s, term, fact):
        k = term.get_id()
        if k not in s.axioms: s.axioms[k] = (term, [])
        s.axioms[k][1].append(fact)
    def oblige(s, name, c, g, kind='assert', line=None, post=False):
        if s.dry: return
        if not isinstance(c, bool): c = simp(c)
        if c is True or (not isinstance(c, bool) and g is not None and g.known(c) is True): goal = True
        else: goal = c
        o = Obl(ns=len(s.schemas), name=name, kind=kind, fn=s.fnstack[-1] if s.fnstack else '', line=line if line is not None else s.line,
                guard=g.expr() if g is not None else True, goal=goal, nf=len(s.facts), facts=None)
        o.post = post
        if goal is True: o.res, o.solver, o.tm = 'proved', 'simplifier', 0.0
        s.obls.append(o)
        return o
    # ------------------------------------------------ memory
    def locate(s, p, ty, g, what):
        """-> list of (cond, region, shape, idx, leaftype) for a scalar access"""
        if isinstance(p, PtrIte):
            out = []
            for c, q in p.alts:
                gg = g.land(c) if g is not None else g
                if gg is None: continue
                if isinstance(q, NullT):
                    s.oblige('null pointer is never dereferenced', bnot(c), g, 'memory'); continue
                if isinstance(q, Opaque): continue
                for x in s.locate(q, ty, gg, what): out.append((band(c, x[0]),) + x[1:])
            return out
        if isinstance(p, (NullT, Opaque)) or not isinstance(p, Ptr):
            if isinstance(p, NullT):
                s.oblige('null pointer is never dereferenced', False, g, 'memory'); return []
            raise Unsupported('access through %r' % (p,))
        if p.r.elty is None: s.settype(p.r, ty)
        path = list(p.path)
        for _ in range(12):
            t = s.type_at(Ptr(p.r, path)).res()
            if t.k == 'struct':
                if sizeof(t) == sizeof(ty) and ty.res().k == 'int' and len(t.fields) > 1:
                    return [(True, p.r, 'packed', path, t)]
                path.append(('f', 0))
            elif t.k == 'array': path.append(0)
            else: break
        tt = ty.res()
        if tt.k != t.k and not (tt.k in ('double', 'float') and t.k in ('double', 'float')):
            if tt.k == 'int' and t.k == 'ptr' or tt.k == 'ptr' and t.k == 'int':
                raise Unsupported('pointer/integer punning at line %d' % s.line)
            if p.r.kind == 'heap' and not any(k[0] is p.r for k in s.log):
                s.settype(p.r, ty); p.r.length = None if p.r.bytes is None else (exact_div(p.r.bytes, sizeof(ty)) or sdiv(p.r.bytes, sizeof(ty)))
                return s.locate(Ptr(p.r, p.path[:1]), ty, g, what)
            raise Unsupported('type punning %s/%s line %d' % (tt, t, s.line))
        shape, idx = [], []
        s.bounds(p.r, path, g, what)
        for x in path:
            if isinstance(x, tuple): shape.append(x[1])
            else: shape.append('*'); idx.append(x)
        al = getattr(p.r, 'alias', None)
        if al is not None: return [(True, al[0], al[1] + ('*',), tuple(idx), t)]
        return [(True, p.r, tuple(shape), tuple(idx), t)]
    def bounds(s, r, path, g, what):
        if not s.check_bounds or s.dry: return
        if r.kind == 'global' and len(path) >= 1 and is_c(path[0]) and path[0] == 0: pass
        elif r.length is not None:
            L = r.length(*path[:r.nidx]) if callable(r.length) else r.length
            i = path[r.nidx - 1]
            if L is not None: s.bound1(i, L, g, r.name, what)
        t = r.elty
        for x in path[r.nidx:]:
            t = t.res()
            if isinstance(x, tuple): t = t.fields[x[1]]
            else:
                s.bound1(x, t.n, g, r.name, what); t = t.el
    def bound1(s, i, L, g, nm, what):
        c = band(cmp('ge', i, 0), cmp('lt', i, L))
        if c is True: return
        s.oblige('index of %s stays in bounds (%s)' % (nm, what), c, g, 'bounds')
    def sort_of(s, t):
        t = t.res()
        if t.k in ('double', 'float'): return R
        if t.k == 'int': return B if t.n == 1 else I
        return None
    def base_val(s, r, shape, idx, t):
        if r.base is not None:
            v = r.base(shape, idx, s.sort_of(t))
            if v is not None: return v
        so = s.sort_of(t)
        if so is None:
            return s.base_ptr(r, shape, idx)
        nm = '%s#%d%s' % (r.name, r.uid, ''.join('[]' if x == '*' else '.%s' % x for x in shape))
        zidx = [zi(i) for i in idx]
        if r.kind in ('global',) and zidx and is_c(idx[0]): zidx = zidx[1:]
        if r.kind in ('alloca', 'heap'): S_.SYMNO[nm] = r.born
        if not zidx: return z3.Const(nm, so)
        return z3.Function(nm, *([I] * len(zidx) + [so]))(*zidx)
    def base_ptr(s, r, shape, idx):
        if r.ptrbase is not None:
            v = r.ptrbase(shape, idx)
            if v is not None: return v
        k = (r, shape)
        if k not in s.autos:
            if r.kind == 'alloca' or r.kind == 'heap' and not r.base and r.kind != 'auto':
                return Opaque('uninitialised pointer')
            s.autos[k] = Region('%s%s->' % (r.name, ''.join('[]' if x == '*' else '.%s' % x for x in shape)), None, None, 'auto', len(idx) + 1, -1)
        return Ptr(s.autos[k], tuple(idx) + (0,))
    def pointee(s, p, elty=None, length=None):
        """the (disjoint) array a pointer cell refers to; used by contracts to give it type and length"""
        sv, s.check_bounds = s.check_bounds, False
        v = s.load(p, PTR, Guard())
        s.check_bounds = sv
        if isinstance(v, Ptr):
            if elty is not None and v.r.elty is None: v.r.elty = elty
            if length is not None: v.r.length = length
        return v
    def read(s, r, shape, idx, t, g=None, upto=None):
        ws = s.log.get((r, shape))
        out = None
        conds = []
        if ws:
            for w in reversed(ws):
                if upto is not None and w.seq > upto: continue
                if g is not None and w.guard is not None and w.guard.conflicts(g): continue
                c, v = s.match(w, idx, r)
                if c is False: continue
                gc = True
                if w.guard is not None and not (g is not None and g.implies(w.guard)):
                    gc = w.guard.rel(g) if g is not None else w.guard.expr()
                c = band(c, gc)
                if c is False: continue
                if g is not None:
                    kn = g.known(c)
                    if kn is False: continue
                    if kn is True: c = True
                conds.append((c, v))
                if c is True: break
        if not conds or conds[-1][0] is not True:
            b = s.base_val(r, shape, idx, t)
            if isinstance(b, Opaque) and conds: out = conds.pop()[1]
            else: out = b
        else: out = conds.pop()[1]
        for c, v in reversed(conds):
            if callable(v): v = v()
            if callable(out): out = out()
            out = ite(c, v, out)
        if callable(out): out = out()
        return out
    def match(s, w, idx, r):
        """condition under which write w hits idx, and the value"""
        sub_ = []
        cs = []
        used = set()
        for (k, n, comp, a, b) in w.vars:
            a2, n2 = subst(a, sub_), subst(n, sub_)
            q = idx[comp]
            ks = sub(q, a2) if b > 0 else sub(a2, q)
            if b > 1:
                d = simp(ks) if is_z(ks) else ks
                if is_c(d): cs.append(d % b == 0); ks = d // b
                else: cs.append(unz(simp(d % b == 0))); ks = simp(zi(d) / b)
            cs.append(cmp('ge', ks, 0)); cs.append(cmp('lt', ks, n2))
            sub_.append((k, ks)); used.add(comp)
        for j, (x, y) in enumerate(zip(w.idx, idx)):
            if j in used or x is None: continue
            cs.append(cmp('eq', subst(x, sub_), y))
        c = band(*cs)
        if c is not True and c is not False: c = simp(c)
        if c is False: return False, None
        c = band(c, subst(w.cond, sub_))
        if w.hav is not None:
            return c, w.hav(idx)
        if callable(w.val): return c, w.val(idx, sub_)
        return c, (subst(w.val, sub_) if sub_ else w.val)
    def load(s, p, ty, g, upto=None):
        t = ty.res()
        if t.k == 'struct' or t.k == 'array':
            tl = t.fields if t.k == 'struct' else [t.el] * t.n
            out = []
            offs = field_offsets(t) if t.k == 'struct' else [sizeof(t.el) * i for i in range(t.n)]
            for i, f in enumerate(tl):
                q = s.gep(ty, p, [0, i]) if (isinstance(p, Ptr) and s.tsame(s.type_at(p), ty)) else s.byte_off(p, offs[i])
                out.append(s.load(q, f, g, upto))
            return Agg(out)
        ls = s.locate(p, ty, g, 'read')
        out = None
        for c, r, shape, idx, lt in reversed(ls):
            if shape == 'packed':
                v = s.load_packed(r, idx, lt, ty, g, upto)
            else: v = s.read(r, shape, idx, lt, g, upto)
            out = v if out is None else ite(c, v, out)
        if out is None: return s.fresh_of(ty, 'deadload')
        if t.k == 'int' and t.n == 1 and not (isinstance(out, bool) or z3.is_bool(out)): out = cmp('ne', out, 0)
        return out
    def load_packed(s, r, path, st, ty, g, upto):
        f = []
        offs = field_offsets(st)
        for i, ft in enumerate(st.fields):
            v = s.load(Ptr(r, tuple(path) + (('f', i),)), ft, g, upto)
            f.append((offs[i] * 8, ft.res().n if ft.res().k == 'int' else sizeof(ft) * 8, v))
        return Packed(f, ty.res().n)
    def store(s, p, v, ty, g):
        t = ty.res()
        if isinstance(v, Agg):
            tl = t.fields if t.k == 'struct' else [t.el] * t.n
            offs = field_offsets(t) if t.k == 'struct' else [sizeof(t.el) * i for i in range(t.n)]
            for i, f in enumerate(tl):
                q = s.gep(ty, p, [0, i]) if (isinstance(p, Ptr) and s.type_at(p) is not None and s.tsame(s.type_at(p), ty)) else s.byte_off(p, offs[i])
                s.store(q, v.v[i], f, g)
            return
        ls = s.locate(p, ty, g, 'write')
        for c, r, shape, idx, lt in ls:
            gg = g.land(c)
            if gg is None: continue
            if shape == 'packed':
                if not isinstance(v, Packed): 
                    raise Unsupported('store of a non-packed word into a struct')
                offs = field_offsets(lt)
                for i, ft in enumerate(lt.fields):
                    x = [w for w in v.f if w[0] == offs[i] * 8]
                    if not x: raise Unsupported('packed layout')
                    s.store(Ptr(r, tuple(idx) + (('f', i),)), x[0][2], ft, gg)
                continue
            if lt.k == 'int' and lt.n > 1 and (isinstance(v, bool) or (is_z(v) and z3.is_bool(v))): v = zi(v)
            if lt.k in ('double', 'float') and isinstance(v, int): v = Fraction(v)
            for m in s.monitors: m(s, r, shape, idx, lt, v, gg)
            s.wr(r, shape, Write(0, gg, idx, v, line=s.line))
    def wr(s, r, shape, w):
        s.seq += 1
        w.seq = s.seq
        s.log.setdefault((r, shape), []).append(w)
    def havoc(s, r, shape, idx, t, g, name='hv'):
        """fresh contents; idx entries None = any"""
        so = s.sort_of(t)
        if so is None: return
        wild = [j for j, x in enumerate(idx) if x is None]
        if wild:
            f = fresh_func(name, [I] * len(wild), so)
            h = lambda q, f=f, wild=wild: f(*[zi(q[j]) for j in wild])
        else:
            c = z3.Const(fresh_name(name), so)
            h = lambda q, c=c: c
        s.wr(r, shape, Write(0, g, idx, None, hav=h, line=s.line))
        return h
    def havoc_ptr(s, p, ty, g, n=None, name='hv'):
        """havoc the object of type ty at p (n: array of n elements at p, or 'all' of the region's last index)"""
        if isinstance(p, PtrIte):
            for c, q in p.alts:
                gg = g.land(c)
                if gg is not None and isinstance(q, Ptr): s.havoc_ptr(q, ty, gg, n, name)
            return
        if p.r.elty is None: s.settype(p.r, ty)
        path = list(p.path)
        for _ in range(6):
            t = s.type_at(Ptr(p.r, path))
            if s.tsame(t, ty): break
            tr = t.res()
            if tr.k == 'array': path.append(0)
            elif tr.k == 'struct': path.append(('f', 0))
            else: raise Unsupported('havoc type')
        for lp, lt in s.leafs(ty):
            shape, idx = [], []
            full = path + list(lp)
            for x in full:
                if isinstance(x, tuple) and x[0] == 'f': shape.append(x[1])
                elif isinstance(x, tuple): shape.append('*'); idx.append(None)
                else: shape.append('*'); idx.append(x)
            if n is not None:
                li = sum(1 for x in path if not isinstance(x, tuple)) - 1
                if isinstance(n, str):
                    idx[li] = None
                    if n == 'rows': idx[li - 1] = None
                    if n == 'any': idx[:li] = [None] * li
                else:
                    # element range [i0, i0+n)
                    so = s.sort_of(lt)
                    if so is None: continue
                    k = fresh_int('k')
                    wild = [j for j, x in enumerate(idx) if x is None] + [li]
                    f = fresh_func(name, [I] * len(wild), so)
                    a = idx[li]
                    h = lambda q, f=f, wild=wild: f(*[zi(q[j]) for j in wild])
                    idx2 = list(idx)
                    s.wr(p.r, tuple(shape), Write(0, g, idx2, None, vars=[(k, n, li, a, 1)], hav=h, line=s.line))
                    continue
            s.havoc(p.r, tuple(shape), tuple(idx), lt, g, name)
    def copy_obj(s, dst, src, ty, g):
        for lp, lt in s.leafs(ty):
            if any(isinstance(x, tuple) and x[0] == '*' for x in lp):
                # array leaf: bulk element-wise copy
                s.copy_array_leaf(dst, src, ty, lp, lt, g); continue
            d = Ptr(dst.r, tuple(dst.path) + tuple(lp)); q = Ptr(src.r, tuple(src.path) + tuple(lp))
            s.store(d, s.load(q, lt, g), lt, g)
    def copy_array_leaf(s, dst, src, ty, lp, lt, g):
        vars_, dp, sp = [], list(dst.path), list(src.path)
        upto = s.seq
        for x in lp:
            if x[0] == '*':
                k = fresh_int('k'); vars_.append((k, x[1])); dp.append(k); sp.append(k)
            else: dp.append(x); sp.append(x)
        sh = tuple('*' if not isinstance(x, tuple) else x[1] for x in dp)
        di = [x for x in dp if not isinstance(x, tuple)]
        si = [x for x in sp if not isinstance(x, tuple)]
        ssh = tuple('*' if not isinstance(x, tuple) else x[1] for x in sp)
        ks = [(k, n, [j for j, x in enumerate(di) if x is k][0], 0, 1) for k, n in vars_]
        def val(idx, sub_, si=si, ssh=ssh, r=src.r, g=g, upto=upto, lt=lt):
            return s.read(r, ssh, tuple(subst(x, sub_) for x in si), lt, g, upto)
        s.wr(dst.r, sh, Write(0, g, di, val, vars=ks, line=s.line))
    def fresh_of(s, ty, nm='f'):
        t = ty.res()
        if t.k in ('double', 'float', 'x86_fp80'): return fresh_real(nm)
        if t.k == 'int': return fresh_bool(nm) if t.n == 1 else fresh_int(nm)
        if t.k == 'struct': return Agg([s.fresh_of(f, nm) for f in t.fields])
        if t.k == 'array': return Agg([s.fresh_of(t.el, nm) for _ in range(t.n)])
        return Opaque(nm)
    # ------------------------------------------------ snapshot (for dry runs)
    def snap(s):
        return (s.seq, len(s.facts), len(s.obls), len(s.exits), {k: len(v) for k, v in s.log.items()}, s.line, len(s.allocs), dict(s.freed), len(s.loops_cut), len(s.ghost_writes), dict(s.globals), dict(s.autos))
    def rollback(s, sn, keep_obls=False):
        s.seq = sn[0]
        if not keep_obls:
            del s.facts[sn[1]:]; del s.obls[sn[2]:]; del s.loops_cut[sn[8]:]
        del s.exits[sn[3]:]
        for k in list(s.log):
            n = sn[4].get(k)
            if n is None: del s.log[k]
            else: del s.log[k][n:]
        s.line = sn[5]
        del s.allocs[sn[6]:]
        s.freed = dict(sn[7])
        del s.ghost_writes[sn[9]:]
    # ------------------------------------------------ evaluation
    def ev(s, fr, v, ty):
        k = v[0]
        if k == 'l':
            if v[1] not in fr.env: raise Unsupported('undefined value %' + v[1] + ' in ' + fr.fn.name)
            return fr.env[v[1]]
        if k == 'c':
            x = v[1]
            t = ty.res()
            if t.k == 'int' and t.n == 1: return bool(x)
            if t.k in ('double', 'float'): return Fraction(x)
            return int(x) if not isinstance(x, bool) else x
        if k == 'g':
            nm = v[1]
            if nm in fr.fn.mod.globals: return Ptr(s.glob(fr.fn.mod, nm), (0,))
            return FuncPtr(nm)
        if k == 'null': return NULL
        if k == 'undef': return s.fresh_of(ty, 'undef')
        if k == 'special': return fresh_real('nonfinite')
        if k == 'zero':
            t = ty.res()
            if t.k in ('double', 'float'): return Fraction(0)
            if t.k == 'ptr': return NULL
            if t.k == 'struct': return Agg([s.ev(fr, ('zero', f), f) for f in t.fields])
            if t.k == 'array': return Agg([s.ev(fr, ('zero', t.el), t.el) for _ in range(t.n)])
            return 0
        if k == 'gep': return s.gep(v[1], s.ev(fr, v[2], PTR), [s.ev(fr, x, t) for t, x in v[3]])
        if k == 'agg': return Agg([s.ev(fr, x, t) for t, x in v[1]])
        raise Unsupported('operand ' + k)
    # ------------------------------------------------ calls
    def call_fn(s, fn, args, g, depth=0):
        fn.parse()
        if depth > MAXDEPTH: raise Unsupported('inlining too deep at ' + fn.name)
        fr = Frame(fn, depth)
        if len(args) != len(fn.params): raise IRError('arity of ' + fn.name)
        for (t, n, at), a in zip(fn.params, args):
            if 'byval' in at and isinstance(a, Ptr):
                r = Region('byval:' + (n or ''), at['byval'], 1, 'alloca', 1, s.seq)
                s.copy_obj(Ptr(r, (0,)), a, at['byval'], g)
                a = Ptr(r, (0,))
            fr.env[n] = a
        s.fnstack.append(s.prog.dem.get(fn.name, fn.name).split('(')[0]); s.frames.append(fr)
        try:
            s.run_level(fr, None, fn.entry, [Edge(g, {}, None)])
        finally:
            s.fnstack.pop(); s.frames.pop()
        if not fr.rets: return None, None
        if len(fr.rets) == 1: return fr.rets[0][1], fr.rets[0][0]
        G = Guard.merge([x[0] for x in fr.rets])
        v = fr.rets[-1][1]
        for gg, x in reversed(fr.rets[:-1]):
            if x is None: continue
            v = ite(gg.rel(G), x, v)
        return v, G
    # ------------------------------------------------ control
    def run_level(s, fr, level, entry, inedges):
        fn = fr.fn
        body = fn.loops[level] if level else None
        pend = {entry: list(inedges)}
        exits, backs = [], []
        def route(src, tgt, g, phi):
            e = Edge(g, phi, src)
            if level and tgt == level: backs.append(e)
            elif level and tgt not in body: exits.append((tgt, e))
            else: pend.setdefault(tgt, []).append(e)
        for b in fn.rpo:
            if b not in pend: continue
            if body is not None and b not in body: continue
            if b in fn.loops and b != level:
                for tgt, e in s.run_loop(fr, b, pend.pop(b)): 
                    route(e.src, tgt, e.g, e.phi)
                continue
            s.run_block(fr, b, pend.pop(b), route)
        return exits, backs
    def phi_vals(s, fr, src, tgt):
        return {p.dst: s.ev(fr, p.a[src], p.ty) for p in fr.fn.blocks[tgt].phis if src in p.a}
    def merge_edges(s, fr, b, edges):
        g = Guard.merge([e.g for e in edges])
        ph = {}
        for p in fr.fn.blocks[b].phis:
            es = [e for e in edges if p.dst in e.phi]
            if not es: continue
            v = es[-1].phi[p.dst]
            for e in reversed(es[:-1]): v = ite(e.g.rel(g), e.phi[p.dst], v)
            ph[p.dst] = v
        return g, ph
    def run_block(s, fr, b, edges, route):
        g, ph = s.merge_edges(fr, b, edges)
        fr.env.update(ph)
        blk = fr.fn.blocks[b]
        for I_ in blk.ins:
            if I_.line: s.line = I_.line
            op = I_.op
            if op == 'br':
                if len(I_.a) == 1:
                    route(b, I_.a[0], g, s.phi_vals(fr, b, I_.a[0])); return
                c = s.ev(fr, I_.a[0], INT(1))
                if is_z(c): c = simp(c)
                kn = g.known(c) if not isinstance(c, bool) else c
                if kn is not None:
                    t = I_.a[1] if kn else I_.a[2]
                    route(b, t, g, s.phi_vals(fr, b, t)); return
                g1, g2 = g.land(c), g.land(bnot(c))
                if g1 is not None: route(b, I_.a[1], g1, s.phi_vals(fr, b, I_.a[1]))
                if g2 is not None: route(b, I_.a[2], g2, s.phi_vals(fr, b, I_.a[2]))
                return
            if op == 'switch':
                c = s.ev(fr, I_.a[0], I_.ty)
                rest = g
                groups = {}
                for cv, l in I_.a[2]: groups.setdefault(l, []).append(cv[1])
                if is_c(c):
                    for l, vs in groups.items():
                        if int(c) in [int(x) for x in vs]: route(b, l, g, s.phi_vals(fr, b, l)); return
                    route(b, I_.a[1], g, s.phi_vals(fr, b, I_.a[1])); return
                allc = []
                for l, vs in groups.items():
                    cc = bor(*[cmp('eq', c, int(x)) for x in vs]); allc.append(cc)
                    gg = g.land(cc)
                    if gg is not None: route(b, l, gg, s.phi_vals(fr, b, l))
                gg = g
                for cc in allc:
                    gg = gg.land(bnot(cc))
                    if gg is None: break
                if gg is not None: route(b, I_.a[1], gg, s.phi_vals(fr, b, I_.a[1]))
                return
            if op == 'ret':
                fr.rets.append((g, s.ev(fr, I_.a[0], I_.ty) if I_.a else None)); return
            if op == 'unreachable': return
            if op in ('call', 'invoke'):
                v, g2 = s.do_call(fr, I_, g)
                if g2 is None: return
                g = g2
                if I_.dst is not None: fr.env[I_.dst] = v
                continue
            v = s.ins(fr, I_, g)
            if I_.dst is not None: fr.env[I_.dst] = v
    def ins(s, fr, I_, g):
        op, a = I_.op, I_.a
        if op == 'load':
            p = s.ev(fr, a[0], PTR)
            if isinstance(p, Opaque): return s.fresh_of(I_.ty, 'opaque')
            if s.lifetimes: s.check_alive(p, g)
            return s.load(p, I_.ty, g)
        if op == 'store':
            p = s.ev(fr, a[1], PTR)
            if isinstance(p, Opaque): s.assumptions.add('a store through an unmodelled pointer (%s) is ignored' % p.why); return
            if s.lifetimes: s.check_alive(p, g)
            return s.store(p, s.ev(fr, a[0], I_.ty), I_.ty, g)
        if op == 'getelementptr':
            return s.gep(a[0], s.ev(fr, a[1], PTR), [s.ev(fr, x, t) for t, x in a[2]])
        if op == 'alloca':
            n = 1
            if a[0] is not None: n = s.ev(fr, a[0][1], a[0][0])
            return Ptr(Region('%s' % I_.dst, I_.ty, n, 'alloca', 1, s.seq + 1), (0,))
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return s.intop(op, I_.ty, s.ev(fr, a[0], I_.ty), s.ev(fr, a[1], I_.ty), g)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = s.ev(fr, a[0], I_.ty), s.ev(fr, a[1], I_.ty)
            if op == 'fdiv':
                if is_c(y) and y == 0:
                    return fresh_real('divzero')
                r = fdiv(x, y)
            else: r = {'fadd': add, 'fsub': sub, 'fmul': mul}[op](x, y)
            if isinstance(r, Fraction) and r.denominator != 1: r = snap(r)
            return r
        if op == 'fneg': return fneg(s.ev(fr, a[0], I_.ty))
        if op == 'icmp': return s.icmp(a[0], s.ev(fr, a[1], I_.ty), s.ev(fr, a[2], I_.ty), I_.ty)
        if op == 'fcmp':
            x, y = s.ev(fr, a[1], I_.ty), s.ev(fr, a[2], I_.ty)
            pr = a[0]
            if pr in ('ord', 'true'): return True
            if pr in ('uno', 'false'): return False
            return cmp(pr[1:], x, y)
        if op == 'select':
            c = s.ev(fr, a[0], INT(1))
            if is_z(c): c = simp(c)
            return ite(c, s.ev(fr, a[1], I_.ty), s.ev(fr, a[2], I_.ty))
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            if op == 'freeze': return s.ev(fr, a[0], I_.ty)
            return s.cast(op, a[0], s.ev(fr, a[1], a[0]), I_.ty)
        if op == 'extractvalue':
            v = s.ev(fr, a[0], I_.ty)
            for i in a[1]:
                if isinstance(v, Opaque): return v
                v = v.v[i]
            return v
        if op == 'insertvalue':
            v = s.ev(fr, a[0], I_.ty)
            if not isinstance(v, Agg): v = s.fresh_of(I_.ty, 'ins')
            def put(agg, ix, x):
                out = Agg(agg.v)
                if len(ix) == 1: out.v[ix[0]] = x
                else: out.v[ix[0]] = put(out.v[ix[0]], ix[1:], x)
                return out
            t = I_.ty.res()
            for i in a[2]: t = (t.fields[i] if t.k == 'struct' else t.el).res()
            return put(v, a[2], s.ev(fr, a[1], t))
        raise Unsupported('instruction %s in %s' % (I_.raw or op, fr.fn.name))
    def icmp(s, pr, x, y, ty):
        if isinstance(x, (Ptr, PtrIte, NullT, Opaque, FuncPtr)) or isinstance(y, (Ptr, PtrIte, NullT, Opaque, FuncPtr)):
            return s.pcmp(pr, x, y)
        if isinstance(x, Packed) or isinstance(y, Packed): raise Unsupported('compare packed')
        if pr in ('eq', 'ne'): return cmp(pr, x, y)
        if pr[0] == 's': return cmp(pr[1:], x, y)
        n = ty.res().n
        u = lambda v: v if (is_c(v) and v >= 0) else (v + (1 << n) if is_c(v) else v if s.nonneg(v) else z3.If(zi(v) < 0, zi(v) + (1 << n), zi(v)))
        return cmp(pr[1:], u(x), u(y))
    def nonneg(s, v):
        return False
    def pcmp(s, pr, x, y):
        if isinstance(x, PtrIte):
            out = False
            r = None
            for c, q in reversed(x.alts):
                v = s.pcmp(pr, q, y); r = v if r is None else ite(c, v, r)
            return r
        if isinstance(y, PtrIte): return s.pcmp(pr, y, x) if pr in ('eq', 'ne') else s._err('pcmp')
        if isinstance(x, Opaque) or isinstance(y, Opaque): return fresh_bool('pcmp')
        if isinstance(x, NullT) and isinstance(y, NullT): return pr == 'eq'
        if isinstance(x, NullT) or isinstance(y, NullT):
            p = y if isinstance(x, NullT) else x
            mn = getattr(p.r, 'maybe_null', None) if isinstance(p, Ptr) else None
            if mn is not None: return mn if pr == 'eq' else bnot(mn)
            return pr == 'ne'
        if isinstance(x, FuncPtr) or isinstance(y, FuncPtr): return (x.name == y.name) == (pr == 'eq') if isinstance(x, FuncPtr) and isinstance(y, FuncPtr) else pr == 'ne'
        if x.r is not y.r: return pr == 'ne' if pr in ('eq', 'ne') else fresh_bool('pcmp')
        if len(x.path) != len(y.path):
            raise Unsupported('comparison of pointers into different levels')
        if pr in ('eq', 'ne'):
            c = band(*[True if isinstance(a, tuple) or isinstance(b, tuple) else cmp('eq', a, b) for a, b in zip(x.path, y.path)])
            return c if pr == 'eq' else bnot(c)
        return cmp(pr[1:], x.path[-1], y.path[-1])
    def _err(s, m): raise Unsupported(m)
    def intop(s, op, ty, x, y, g):
        n = ty.res().n
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r:
                t = s.type_at(x)
                return mul(sub(x.path[-1], y.path[-1]), sizeof(t) if t is not None else 1)
            return fresh_int('ptrarith')
        if isinstance(x, (Opaque, PtrIte, NullT)) or isinstance(y, (Opaque, PtrIte, NullT)): return fresh_int('opq')
        if n == 1:
            x, y = (v if isinstance(v, bool) else zb(v) for v in (x, y))
            if op in ('and', 'mul'): return band(x, y)
            if op == 'or': return bor(x, y)
            if op in ('xor', 'add', 'sub'):
                if isinstance(y, bool): return bnot(x) if y else x
                if isinstance(x, bool): return bnot(y) if x else y
                return z3.Xor(x, y)
        if isinstance(x, Packed) or isinstance(y, Packed) or (op in ('shl',) and is_c(y) and y == 32 and n == 64):
            return s.packop(op, x, y, n)
        if op == 'or' and (is_z(x) or is_z(y)):
            if is_c(y) and y == 0: return x
            if is_c(x) and x == 0: return y
        if op == 'add': return add(x, y)
        if op == 'sub': return sub(x, y)
        if op == 'mul': return mul(x, y)
        if op == 'sdiv': return sdiv(x, y)
        if op == 'srem': return srem(x, y)
        if op in ('udiv', 'urem'):
            if is_c(x) and x < 0 or is_c(y) and y < 0: raise Unsupported('udiv')
            s.assumptions.add('unsigned division operands are non-negative')
            return sdiv(x, y) if op == 'udiv' else srem(x, y)
        if is_c(x) and is_c(y):
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op == 'shl': return x << y
            if op == 'lshr' and x >= 0: return x >> y
            if op == 'ashr': return x >> y
        if op == 'shl' and is_c(y): return mul(x, 1 << y)
        if op in ('ashr', 'lshr') and is_c(y): return zi(x) / (1 << y)
        if op == 'and' and is_c(y) and y >= 0 and (y & (y + 1)) == 0: return zi(x) % (y + 1)
        if op == 'xor' and is_c(y) and y == -1: return sub(-1, x)
        if op in ('and', 'or', 'xor'):
            f = z3.Function('bit' + op, I, I, I)
            return f(zi(x), zi(y))
        raise Unsupported('int op ' + op)
    def packop(s, op, x, y, n):
        def mk(v): return v if isinstance(v, Packed) else Packed([(0, 32, v)] if not (is_c(v) and v == 0) else [], 64)
        if op == 'shl':
            k = y
            return Packed([(o + k, b, v) for o, b, v in mk(x).f if o + k < n], n)
        if op == 'lshr':
            p = mk(x)
            f = [(o - y, b, v) for o, b, v in p.f if o >= y]
            return Packed(f, n)
        if op == 'or':
            f = mk(x).f + mk(y).f
            return Packed(sorted(f, key=lambda t: t[0]), n)
        if op == 'and' and is_c(y):
            m = y & ((1 << n) - 1)
            f = []
            for o, b, v in mk(x).f:
                k = (m >> o) & ((1 << b) - 1)
                if k == (1 << b) - 1: f.append((o, b, v))
                elif k != 0: raise Unsupported('partial mask')
            return Packed(f, n)
        raise Unsupported('packed ' + op)
    def cast(s, op, ft, v, tt):
        f, t = ft.res(), tt.res()
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'bitcast' and f.k != t.k: raise Unsupported('bitcast')
            return v
        if isinstance(v, Opaque): return s.fresh_of(tt, 'opq')
        if isinstance(v, Packed):
            if op == 'trunc':
                for o, b, x in v.f:
                    if o == 0 and b >= t.n: return x
                return 0
            if op == 'zext': return v
            raise Unsupported('cast packed')
        if op == 'sext':
            if f.n == 1: return ite(v, -1, 0) if not isinstance(v, bool) else (-1 if v else 0)
            return v
        if op == 'zext':
            if f.n == 1: return int(v) if isinstance(v, bool) else zi(v)
            if is_c(v): return v if v >= 0 else v + (1 << f.n)
            if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)): return v
            if f.n == 8: return v          # bool bytes
            s.assumptions.add('values zero-extended from %d bits are non-negative' % f.n)
            return v
        if op == 'trunc':
            if isinstance(v, Ptr): return fresh_int('ptrbits')
            if t.n == 1:
                if is_c(v): return bool(v & 1)
                return cmp('ne', v, 0)
            if is_c(v):
                m = v & ((1 << t.n) - 1)
                return m - (1 << t.n) if m >> (t.n - 1) else m
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, bool): return Fraction(int(v))
            if is_c(v): return Fraction(v)
            return zr(zi(v))
        if op in ('fptosi', 'fptoui'):
            if is_c(v): return int(v)
            if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
            vr = zr(v)
            k = z3.ToInt(vr)
            nk = -z3.ToInt(-vr)
            return z3.If(vr >= 0, k, nk)
        if op in ('fpext', 'fptrunc'): return v
        raise Unsupported('cast ' + op)
    # ------------------------------------------------ call dispatch
    def do_call(s, fr, I_, g):
        import models
        (k, nm), aa = I_.a
        if k == 'loc':
            fp = fr.env.get(nm)
            if isinstance(fp, FuncPtr): nm = fp.name
            else: raise Unsupported('indirect call in ' + fr.fn.name)
        dm = s.prog.dem.get(nm)
        if dm is None: dm = nm
        base = re.sub(r'\(.*$', '', dm) if not dm.startswith('std::function') else dm
        args = [s.ev(fr, v, t) if v is not None else None for t, v, _ in aa]
        # byval arguments
        for j, (t, v, at) in enumerate(aa):
            pass
        line = s.line
        fn = s.prog.resolve(fr.fn.mod, nm)
        c = s.contracts.get(base)
        if c is not None:
            s.called.add(base)
            r = c(s, args, g, I_)
            if r is not NotImplemented:
                s.line = line
                return r
        r = models.call(s, fr, nm, dm, base, args, aa, I_, g, fn)
        if r is not NotImplemented:
            s.line = line
            return r
        if fn is None:
            raise Unsupported('external function %s has no contract or model' % dm)
        if s.inline_only is not None and not s.inline_only(base) and not base.startswith('std::') and ' std::' not in base:
            raise Unsupported('no contract for ' + base)
        if not dm.startswith('std::') and not re.match(r'^(void|int|double|bool|[\w: ]+[\*&]?) std::', dm): s.inlined.add(base)
        if s.fnstack.count(base) > 1: raise Unsupported('recursion in ' + base)
        v, g2 = s.call_fn(fn, args, g, fr.depth + 1)
        s.line = line
        return v, g2
    def check_alive(s, p, g):
        if isinstance(p, PtrIte):
            for c, q in p.alts:
                gg = g.land(c)
                if gg is not None: s.check_alive(q, gg)
            return
        if isinstance(p, Ptr) and p.r in s.freed:
            s.oblige('%s is not used after it is released' % p.r.name, bnot(s.freed_cond(p.r, g)), g, 'lifetime')
    def freed_cond(s, r, g):
        return bor(*[x.rel(g) if not x.conflicts(g) else False for x in s.freed.get(r, [])])
    # ------------------------------------------------ loops
    def run_loop(s, fr, h, edges):
        r = s.try_unroll(fr, h, edges)
        if r is not None: return r
        import loops
        return loops.cut(s, fr, h, edges)
    def try_unroll(s, fr, h, edges):
        sn = s.snap()
        env0 = dict(fr.env)
        rets0 = len(fr.rets)
        nl = len(edges)
        exits = []
        cur = edges
        g0 = Guard.merge([e.g for e in edges])
        lim = max(s.unroll, s.sym_unroll)
        if not s.sym_unroll:
            # the header alone shows a data-dependent exit: no need to execute the body
            out = []
            s.run_block(fr, h, list(edges), lambda src, tgt, g, phi: out.append(tgt in fr.fn.loops[h]))
            s.rollback(sn); fr.env = dict(env0); del fr.rets[rets0:]
            if True in out and False in out: return None
        for it in range(lim + 1):
            ex, backs = s.run_level(fr, h, h, cur)
            exits += ex
            if s.sym_unroll == 0 and ex and backs:
                # data-dependent exit: not a constant trip count
                break
            if s.sym_unroll and ex and backs:
                backs = [b for b in backs if s.feasible(b.g)]
            if len(fr.rets) > rets0 and backs and not s.sym_unroll: break
            if not backs: return exits
            cur = backs
        s.rollback(sn)
        fr.env = env0
        del fr.rets[rets0:]
        return None
    def feasible(s, g):
        sol = z3.Solver(); sol.set('timeout', 300)
        for f in s.facts: sol.add(f)
        sol.add(zb(g.expr()))
        return sol.check() != z3.unsat
