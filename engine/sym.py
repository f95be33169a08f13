"""Symbolic values: python constants or z3 terms over mathematical Int / Real."""
import z3
from fractions import Fraction
from ir import IRError, snap

_ctr = [0]
SYMNO = {}
def fresh_name(base):
    _ctr[0] += 1
    n = '%s!%d' % (base, _ctr[0])
    SYMNO[n] = _ctr[0]
    return n
def counter(): return _ctr[0]
def fresh_int(b='i'): return z3.Int(fresh_name(b))
def fresh_real(b='r'): return z3.Real(fresh_name(b))
def fresh_bool(b='b'): return z3.Bool(fresh_name(b))
def fresh_func(b, doms, rng):
    return z3.Function(fresh_name(b), *(doms + [rng]))

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

def is_c(v): return isinstance(v, (bool, int, Fraction))
def is_z(v): return isinstance(v, z3.ExprRef)
def zi(v):
    if isinstance(v, bool): return z3.IntVal(1 if v else 0)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction):
        if v.denominator == 1: return z3.IntVal(v.numerator)
        raise IRError('int from fraction')
    if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v
def zr(v):
    if isinstance(v, (int, Fraction)):
        v = Fraction(v); return z3.RealVal('%d/%d' % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)
    if z3.is_int(v): return z3.ToReal(v)
    return v
def zb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.BoolVal(v != 0)
    if z3.is_int(v): return v != 0
    return v
def toz(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return zr(v)
    return v

def unz(e):
    """z3 numeral -> python constant when possible"""
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return e.as_fraction()
    return e

_simp_cache = {}
def simp(e):
    if not is_z(e): return e
    k = e.get_id()
    r = _simp_cache.get(k)
    if r is not None and r[0].eq(e): return r[1]
    s = unz(z3.simplify(e))
    _simp_cache[k] = (e, s)
    return s

# ------------------------------------------------------------ arithmetic
def sn(x):
    return snap(x) if isinstance(x, Fraction) and x.denominator != 1 else x
def add(a, b):
    if is_c(a) and is_c(b): return sn(a + b)
    if is_c(a) and a == 0: return b
    if is_c(b) and b == 0: return a
    if real(a) or real(b): return zr(a) + zr(b)
    if is_c(a): a, b = b, a
    if is_c(b):
        # fold  (x + c1) + c2
        x, c = split(a)
        c += b
        return x if c == 0 else x + z3.IntVal(c)
    return zi(a) + zi(b)
def split(a):
    """int term -> (base, const)"""
    if is_z(a) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return a.arg(0), a.arg(1).as_long()
    return a, 0
def real(a): return isinstance(a, Fraction) or (is_z(a) and z3.is_real(a))
def neg(a):
    if is_c(a): return -a
    return simp_small(-a)
def simp_small(e): return e
def sub(a, b):
    if is_c(b) and not real(a) and not real(b): return add(a, -b)
    if is_c(a) and is_c(b): return sn(a - b)
    if is_c(b) and b == 0: return a
    if is_z(a) and is_z(b) and a.eq(b): return Fraction(0) if real(a) else 0
    if real(a) or real(b): return zr(a) - zr(b)
    if is_z(a):
        xa, ca = split(a); xb, cb = split(b) if is_z(b) else (b, 0)
        if is_z(xa) and is_z(xb) and xa.eq(xb): return ca - cb
    return zi(a) - zi(b)
def mul(a, b):
    if is_c(a) and is_c(b): return sn(a * b)
    if is_c(a): a, b = b, a
    if is_c(b):
        if b == 0: return Fraction(0) if (real(a) or real(b)) else 0
        if b == 1: return a
    if real(a) or real(b): return zr(a) * zr(b)
    return zi(a) * zi(b)
def fdiv(a, b):
    if is_c(b):
        if b == 0: raise IRError('division by literal zero')
        if is_c(a): return sn(Fraction(a) / Fraction(b))
        return zr(a) / zr(b)
    if is_c(a) and a == 0: return Fraction(0)
    return zr(a) / zr(b)
def sdiv(a, b):
    if is_c(a) and is_c(b):
        q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
    if is_c(b) and b > 0:
        if b == 1: return a
        s = exact_div(a, b)
        if s is None: s = exact_div(simp(a), b)
        if s is not None: return s
        a = zi(a)
        return z3.If(a >= 0, a / b, -((-a) / b))
    a, b = zi(a), zi(b)
    q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
    return z3.If((a < 0) == (b < 0), q, -q)
def exact_div(a, b):
    """a is syntactically a multiple of constant b"""
    if is_c(a): return a // b if a % b == 0 else None
    if z3.is_mul(a) and a.num_args() == 2:
        for i in (0, 1):
            if z3.is_int_value(a.arg(i)):
                c = a.arg(i).as_long()
                if c % b == 0:
                    return mul(a.arg(1 - i), c // b)
    if z3.is_add(a):
        r = 0
        for k in a.children():
            x = exact_div(unz(k), b)
            if x is None: return None
            r = add(r, x)
        return r
    return None
def srem(a, b):
    if is_c(a) and is_c(b):
        r = abs(a) % abs(b); return r if a >= 0 else -r
    if is_c(b) and b > 0:
        a = zi(a)
        return z3.If(a >= 0, a % b, -((-a) % b))
    return sub(a, mul(b, sdiv(a, b)))

def fneg(a): return -a if is_c(a) else -a

CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}
SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
def cmp(op, a, b):
    if is_c(a) and is_c(b): return CMP[op](a, b)
    if is_z(a) and is_z(b) and a.eq(b): return op in ('eq', 'le', 'ge')
    # ite(c,k1,k2) vs constant
    if is_c(b) and is_z(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and not z3.is_bool(a):
        x, y = unz(a.arg(1)), unz(a.arg(2))
        if is_c(x) and is_c(y):
            p, q = CMP[op](x, b), CMP[op](y, b)
            if p == q: return p
            return a.arg(0) if p else bnot(a.arg(0))
    if is_c(a) and is_z(b): return cmp(SWAP[op], b, a)
    if (is_z(a) and z3.is_bool(a)) or (is_z(b) and z3.is_bool(b)):
        if is_c(b): return a if (bool(b) == (op == 'eq')) else bnot(a)
        if is_c(a): return b if (bool(a) == (op == 'eq')) else bnot(b)
        return a == b if op == 'eq' else a != b
    if real(a) or real(b): a, b = zr(a), zr(b)
    else:
        if is_z(a) and is_z(b):
            xa, ca = split(a); xb, cb = split(b)
            if xa.eq(xb): return CMP[op](ca, cb)
        a, b = zi(a), zi(b)
    if op == 'ne': return z3.Not(a == b)
    # canonical orientation: only ==, <=, <  with Not
    if op == 'ge': return z3.Not(a < b)
    if op == 'gt': return z3.Not(a <= b)
    return CMP[op](a, b)
def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def bnot(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def bimp(a, b): return bor(bnot(a), b)

# ------------------------------------------------------------ pointers
class Region:
    _n = [0]
    def __init__(s, name, elty, length, kind, nidx=1, birth=0):
        Region._n[0] += 1
        s.uid = Region._n[0]
        s.born = _ctr[0]
        s.name, s.elty, s.length, s.kind, s.nidx, s.birth = name, elty, length, kind, nidx, birth
        s.bytes = None
        s.base = None          # optional callable(shape, idx, sort)->value
        s.ptrbase = None       # optional callable(shape, idx)->Ptr
    def __repr__(s): return s.name

class Ptr:
    __slots__ = ('r', 'path')
    def __init__(s, r, path): s.r, s.path = r, tuple(path)
    def __repr__(s): return '&%s%s' % (s.r.name, ''.join('.%d' % x[1] if isinstance(x, tuple) else '[%s]' % x for x in s.path))
class FuncPtr:
    def __init__(s, name): s.name = name
class NullT:
    def __repr__(s): return 'null'
NULL = NullT()
class PtrIte:
    """list of (cond, ptr): first true cond wins; last cond is True"""
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
class Packed:
    """small integers packed into one ABI register: fields [(bitoffset, bits, value)]"""
    __slots__ = ('f', 'bits')
    def __init__(s, f, bits): s.f, s.bits = f, bits
class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = list(v)
class Opaque:
    """a value nothing is known about and no arithmetic is done on"""
    def __init__(s, why): s.why = why
    def __repr__(s): return 'Opaque(%s)' % s.why

def same(a, b):
    if a is b: return True
    if is_c(a) and is_c(b): return type(a) == type(b) and a == b or (a == b and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool) and not isinstance(b, bool))
    if is_z(a) and is_z(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and len(a.path) == len(b.path) and all(
            (x == y if isinstance(x, tuple) or isinstance(y, tuple) else same(x, y)) for x, y in zip(a.path, b.path))
    if isinstance(a, Agg) and isinstance(b, Agg): return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    return False

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same(a, b): return a
    if isinstance(a, (Ptr, PtrIte, NullT)) or isinstance(b, (Ptr, PtrIte, NullT)):
        if isinstance(a, Opaque): return b
        if isinstance(b, Opaque): return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and len(a.path) == len(b.path):
            out = []
            for x, y in zip(a.path, b.path):
                if isinstance(x, tuple) or isinstance(y, tuple):
                    if x != y: break
                    out.append(x)
                else: out.append(ite(c, x, y))
            else: return Ptr(a.r, out)
        al = [(band(c, g), p) for g, p in (a.alts if isinstance(a, PtrIte) else [(True, a)])]
        bl = [(band(bnot(c), g), p) for g, p in (b.alts if isinstance(b, PtrIte) else [(True, b)])]
        return PtrIte(al + bl)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg([ite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Packed) and isinstance(b, Packed) and [(x[0], x[1]) for x in a.f] == [(x[0], x[1]) for x in b.f]:
        return Packed([(x[0], x[1], ite(c, x[2], y[2])) for x, y in zip(a.f, b.f)], a.bits)
    if isinstance(a, Opaque): return b
    if isinstance(b, Opaque): return a
    isb = lambda v: isinstance(v, bool) or (is_z(v) and z3.is_bool(v))
    if isb(a) and isb(b):
        if isinstance(a, bool) and isinstance(b, bool): return c if a else bnot(c)
        if a is True: return bor(c, b)
        if a is False: return band(bnot(c), b)
        if b is True: return bor(bnot(c), a)
        if b is False: return band(c, a)
        return z3.If(c, zb(a), zb(b))
    if real(a) or real(b): return z3.If(c, zr(a), zr(b))
    if isb(a) or isb(b): return z3.If(c, zi(a), zi(b))
    if isinstance(a, (FuncPtr,)) or isinstance(b, (FuncPtr,)): return Opaque('function pointer merge')
    return z3.If(c, zi(a), zi(b))

_syms = {}
def symbols(e):
    """names of uninterpreted symbols in a value"""
    if isinstance(e, Ptr):
        s = set()
        for x in e.path:
            if not isinstance(x, tuple): s |= symbols(x)
        return s
    if isinstance(e, PtrIte):
        s = set()
        for g, p in e.alts: s |= symbols(g) | symbols(p)
        return s
    if isinstance(e, Agg):
        s = set()
        for x in e.v: s |= symbols(x)
        return s
    if isinstance(e, Packed):
        s = set()
        for x in e.f: s |= symbols(x[2])
        return s
    if not is_z(e): return frozenset()
    k = e.get_id()
    r = _syms.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            st += x.children()
    out = frozenset(out)
    _syms[k] = (e, out)
    return out

def subst(e, pairs):
    """pairs: list of (z3 const, value)"""
    if isinstance(e, Ptr): return Ptr(e.r, [x if isinstance(x, tuple) else subst(x, pairs) for x in e.path])
    if isinstance(e, PtrIte): return PtrIte([(subst(g, pairs), subst(p, pairs)) for g, p in e.alts])
    if isinstance(e, Agg): return Agg([subst(x, pairs) for x in e.v])
    if isinstance(e, Packed): return Packed([(a, b, subst(x, pairs)) for a, b, x in e.f], e.bits)
    if not is_z(e): return e
    ps = []
    sy = symbols(e)
    for a, b in pairs:
        if a.decl().name() in sy:
            ps.append((a, zr(b) if z3.is_real(a) else zb(b) if z3.is_bool(a) else zi(b)))
    if not ps: return e
    return unz(z3.substitute(e, *ps))
