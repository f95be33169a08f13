"""Contracts assumed for the C / C++ library functions the code calls, and for
LLVM intrinsics.  These are the trusted base; every family used in a run is
recorded in ctx.assumptions."""
import re, z3
from fractions import Fraction
from ir import *
from sym import *
from vc import Unsupported, Write, Guard

RNG = ('std::function<double ()>::operator()',)

def uf(name, n=1):
    return z3.Function(name, *([R] * (n + 1)))
SQRT, SIN, COS, EXP, LOG, ATAN, ACOS, ASIN, ERF, POW, TAN, SINH, COSH = (uf('m_' + x) for x in 'sqrt sin cos exp log atan acos asin erf pow1 tan sinh cosh'.split())
POW = uf('m_pow', 2)

def const_pow(x, k):
    out = Fraction(1)
    for _ in range(abs(k)): out = mul(out, x)
    return out if k >= 0 else fdiv(Fraction(1), out)

def m_sqrt(ctx, x):
    if is_c(x):
        import math
        x = Fraction(x)
        if x >= 0:
            a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if a * a == x.numerator and b * b == x.denominator: return Fraction(a, b)
    x = zr(x)
    t = SQRT(x)
    return t
def m_trig(ctx, x, which):
    if is_c(x) and x == 0: return Fraction(0 if which == 'sin' else 1)
    x = zr(x)
    s, c = SIN(x), COS(x)
    return s if which == 'sin' else c
def m_exp(ctx, x):
    if is_c(x) and x == 0: return Fraction(1)
    x = zr(x); t = EXP(x)
    return t
def m_log(ctx, x):
    x = zr(x); t = LOG(x)
    return t
def m_erf(ctx, x):
    x = zr(x); t = ERF(x)
    return t
def m_pow(ctx, x, y):
    if is_z(y): y = simp(y)
    if is_c(y) and Fraction(y).denominator == 1 and abs(y) <= 6 and not getattr(ctx, 'pow_uf', False): return const_pow(x, int(y))
    if is_c(y) and y == Fraction(1, 2): return m_sqrt(ctx, x)
    if is_c(x) and x == 1: return Fraction(1)
    x, y = zr(x), zr(y); t = POW(x, y)
    return t
def m_fabs(ctx, x):
    if is_c(x): return abs(x)
    return z3.If(x >= 0, x, -x)
def m_floor(ctx, x):
    if is_c(x):
        import math
        return Fraction(math.floor(x))
    return z3.ToReal(z3.ToInt(zr(x)))
def m_ceil(ctx, x):
    if is_c(x):
        import math
        return Fraction(math.ceil(x))
    return z3.ToReal(-z3.ToInt(-zr(x)))
def m_plain(f):
    def g(ctx, x):
        t = f(zr(x))
        return t
    return g

M1 = {'sqrt': m_sqrt, 'sqrtf': m_sqrt, 'sin': lambda c, x: m_trig(c, x, 'sin'), 'cos': lambda c, x: m_trig(c, x, 'cos'), 'exp': m_exp, 'log': m_log, 'erf': m_erf,
      'fabs': m_fabs, 'floor': m_floor, 'ceil': m_ceil, 'atan': m_plain(ATAN), 'acos': m_plain(ACOS), 'asin': m_plain(ASIN), 'tan': m_plain(TAN),
      'sinh': m_plain(SINH), 'cosh': m_plain(COSH),
      'llvm.sqrt.f64': m_sqrt, 'llvm.fabs.f64': m_fabs, 'llvm.floor.f64': m_floor, 'llvm.ceil.f64': m_ceil, 'llvm.exp.f64': m_exp, 'llvm.fabs.f32': m_fabs,
      'std::sqrt': m_sqrt, 'std::fabs': m_fabs, 'std::abs': m_fabs, 'std::exp': m_exp, 'std::log': m_log, 'std::floor': m_floor,
      'std::sin': lambda c, x: m_trig(c, x, 'sin'), 'std::cos': lambda c, x: m_trig(c, x, 'cos')}

# ------------------------------------------------------------ strings
STRLIT = {}
def strlit(t):
    """interned integer for a literal"""
    if t not in STRLIT: STRLIT[t] = 1000 + len(STRLIT)
    return STRLIT[t]
def strcell(ctx, p):
    if not isinstance(p, Ptr): return None
    path = list(p.path)
    # descend to the std::string struct if p points to an outer first member: not needed
    shape = tuple('*' if not isinstance(x, tuple) else x[1] for x in path) + ('$',)
    idx = tuple(x for x in path if not isinstance(x, tuple))
    return p.r, shape, idx
def strget(ctx, p, g):
    if isinstance(p, PtrIte):
        out = None
        for c, q in reversed(p.alts):
            v = strget(ctx, q, g); out = v if out is None else ite(c, v, out)
        return out
    c = strcell(ctx, p)
    if c is None: return fresh_int('str')
    return ctx.read(c[0], c[1], c[2], INT(64), g)
def strput(ctx, p, v, g):
    c = strcell(ctx, p)
    if c is None: return
    ctx.wr(c[0], c[1], Write(0, g, c[2], v, line=ctx.line))
def cstrval(ctx, p):
    t = ctx.cstring(p)
    if t is not None: return strlit(t)
    if isinstance(p, Ptr) and getattr(p.r, 'strof', None) is not None: return p.r.strof
    return fresh_int('cstr')
def lit_text(v):
    for t, n in STRLIT.items():
        if n == v: return t
    return None

def noret(ctx, g, why):
    if not ctx.dry: ctx.exits.append((g, why, ctx.line))
    return (None, None)

def heap(ctx, nbytes, g, nm='new'):
    r = Region('%s@%d' % (nm, ctx.line), None, None, 'heap', 1, ctx.seq + 1)
    r.bytes = nbytes
    ctx.allocs.append((r, g))
    return Ptr(r, (0,))

def free(ctx, p, g):
    if isinstance(p, PtrIte):
        for c, q in p.alts:
            gg = g.land(c)
            if gg is not None: free(ctx, q, gg)
        return
    if not isinstance(p, Ptr): return
    if ctx.lifetimes:
        ctx.oblige('%s is released at most once' % p.r.name, bnot(ctx.freed_cond(p.r, g)) if p.r in ctx.freed else True, g, 'lifetime')
        ctx.freed.setdefault(p.r, []) ; ctx.freed[p.r] = ctx.freed[p.r] + [g]

def call(ctx, fr, nm, dm, base, args, aa, I_, g, fn):
    A = ctx.assumptions
    if nm.startswith('llvm.'):
        if nm.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.stackrestore', 'llvm.assume', 'llvm.experimental')): return None, g
        if nm.startswith('llvm.stacksave'): return Opaque('stack'), g
        if nm.startswith(('llvm.memcpy', 'llvm.memmove')): mem_copy(ctx, fr, args, g); return None, g
        if nm.startswith('llvm.memset'): mem_set(ctx, fr, args, g); return None, g
        if nm.startswith('llvm.umul.with.overflow'):
            A.add('allocation sizes do not overflow 64 bits')
            return Agg([mul(args[0], args[1]), False]), g
        if nm.startswith('llvm.uadd.with.overflow'):
            return Agg([add(args[0], args[1]), False]), g
        if nm.startswith('llvm.abs'):
            x = args[0]
            return (abs(x) if is_c(x) else z3.If(x >= 0, x, -x)), g
        if nm.startswith('llvm.fmuladd'):
            return add(mul(args[0], args[1]), args[2]), g
        if nm.startswith(('llvm.smax', 'llvm.umax')): return ite(cmp('ge', args[0], args[1]), args[0], args[1]), g
        if nm.startswith(('llvm.smin', 'llvm.umin')): return ite(cmp('le', args[0], args[1]), args[0], args[1]), g
        if nm.startswith(('llvm.maxnum', 'llvm.maximum')): return ite(cmp('ge', args[0], args[1]), args[0], args[1]), g
        if nm.startswith(('llvm.minnum', 'llvm.minimum')): return ite(cmp('le', args[0], args[1]), args[0], args[1]), g
        if nm.startswith('llvm.round'):
            x = args[0]
            A.add('round() is modelled as floor(x+1/2) with ties away from zero ignored')
            return m_floor(ctx, add(x, Fraction(1, 2))), g
        if nm.startswith('llvm.trap'): return noret(ctx, g, 'trap')
        if nm.startswith('llvm.eh'): return 0, g
        if nm.startswith('llvm.pow'):
            return m_pow(ctx, args[0], args[1]), g
    if nm in M1 or (base in M1 and len(args) == 1 and not z3int(args[0])):
        A.add('mathematical library functions satisfy the stated algebraic facts (sqrt, sin/cos, acos, exp, pow, log, erf)')
        return M1.get(nm, M1.get(base))(ctx, args[0]), g
    if base == 'std::abs' or nm == 'abs':
        x = args[0]
        return (abs(x) if is_c(x) else z3.If(x >= 0, x, -x)), g
    if nm == 'pow' or re.match(r'^__gnu_cxx::__promote_2<.* std::pow<', dm) or base in ('std::pow', 'powf'):
        return m_pow(ctx, args[0], args[1]), g
    if nm in ('atan2', 'fmod', 'hypot'):
        return uf('m_' + nm, 2)(zr(args[0]), zr(args[1])), g
    if dm.startswith('std::function<double ()>::operator()'):
        A.add('the random-number source returns values in [0,1)')
        ctx.rngno += 1
        x = fresh_real('rng'); ctx.rngs.append(x)
        ctx.assume(z3.And(x >= 0, x < 1))
        return x, g
    if nm in ('exit', 'abort', '_exit') or base in ('cgmTerminateCode', 'std::terminate') or nm.startswith('_ZSt') and '__throw' in nm or nm in ('__cxa_throw_bad_array_new_length', '__clang_call_terminate'):
        return noret(ctx, g, base)
    if base in ('operator new', 'operator new[]'):
        A.add('operator new succeeds')
        return heap(ctx, args[0], g), g
    if base in ('operator delete', 'operator delete[]', 'free'):
        free(ctx, args[0], g); return None, g
    if nm in ('malloc', 'calloc'):
        return heap(ctx, args[0] if nm == 'malloc' else mul(args[0], args[1]), g), g
    if nm in ('printf', 'fprintf', 'fputs', 'fputc', 'putc', 'puts', 'putchar') and getattr(ctx, 'channels', None):
        emit(ctx, nm, args, g); return fresh_int(nm), g
    if nm in ('printf', 'fprintf', 'puts', 'putchar', 'fflush', 'fclose', 'system', 'rename', 'remove', 'fputs'): return fresh_int(nm), g
    if nm == 'fopen': return Opaque('FILE'), g
    if nm in ('atoi', 'atol'):
        A.add('atoi/atof return arbitrary numbers')
        return fresh_int('atoi'), g
    if nm in ('atof', 'strtod'):
        A.add('atoi/atof return arbitrary numbers')
        return fresh_real('atof'), g
    if nm in ('strcmp', 'strncmp'):
        a, b = cstrval(ctx, args[0]), cstrval(ctx, args[1])
        r = fresh_int('strcmp')
        ctx.assume(cmp('eq', r, 0) == zb(cmp('eq', a, b)))
        return r, g
    if nm == 'getenv': return Opaque('getenv'), g
    if nm == 'stat': return fresh_int('stat'), g
    if nm in ('__cxa_atexit', '__cxa_guard_acquire', '__cxa_guard_release'): return 0, g
    if nm == 'time' or nm == 'clock': return fresh_int(nm), g
    r = strings(ctx, nm, dm, base, args, aa, I_, g)
    if r is not NotImplemented: return r
    return NotImplemented

class Channel:
    """ghost record of what is printed: token k has value val[k] and kind[k] (0 = end of line, otherwise precision and conversion); $n tokens so far"""
    def __init__(s, fp=None):
        s.fp = fp
        def cell(n, t, c=1):
            r = Region('$' + n, t, c, 'param'); r.ghost = True; return Ptr(r, (0,))
        s.val, s.kind, s.n, s.glue = cell('printed', DBL, None), cell('format', INT(32), None), cell('tokens', INT(32)), cell('glue', INT(32))
    def put(s, ctx, v, kind, g, glued=0):
        n = ctx.load(s.n, INT(32), g)
        at = lambda p: Ptr(p.r, (n,))
        if isinstance(v, int) or is_z(v) and z3.is_int(v): v = Fraction(v) if isinstance(v, int) else z3.ToReal(v)
        if z3.is_bool(v): v = z3.If(v, z3.RealVal(1), z3.RealVal(0))
        ctx.store(at(s.val), v, DBL, g)
        if kind and not (is_c(glued) and glued == 0): kind = add(kind, mul(glued, 1000000))
        ctx.store(at(s.kind), kind, INT(32), g)
        ctx.store(s.n, add(n, 1), INT(32), g)
CONV = {'i': 'd', 'd': 'd', 'u': 'd', 'f': 'f', 'F': 'f', 'e': 'e', 'E': 'e', 'g': 'g', 'G': 'g'}
def kind_of(conv, prec=None):
    c = CONV[conv]
    if c == 'd': prec = 0
    elif prec is None: prec = 6
    return 1000 + 10 * prec + 'dfeg'.index(c)
def emit(ctx, nm, args, g):
    """append the tokens of one call; text that is no number is left out, blanks only separate"""
    if nm in ('printf', 'puts', 'putchar'): fp, rest = None, list(args)
    elif nm == 'fprintf': fp, rest = args[0], list(args[1:])
    else: fp, rest = args[1], [args[0]]
    ch = None
    for c in ctx.channels:
        if c.fp is fp or isinstance(fp, Ptr) and isinstance(c.fp, Ptr) and fp.r is c.fp.r: ch = c
    if ch is None: return
    ctx.assumptions.add('printf-family output is the tokens of the literal format: each conversion prints its argument')
    if nm in ('fputc', 'putc', 'putchar'):
        if not is_c(rest[0]): raise Unsupported('character output of a variable')
        text = chr(rest[0]).replace('%', '%%')
    else:
        text = ctx.cstring(rest[0])
        if text is None: raise Unsupported('output of a variable string')
        if nm in ('fputs', 'puts'): text = text.replace('%', '%%') + ('\n' if nm == 'puts' else '')
    vals = rest[1:]
    glue = ctx.load(ch.glue, INT(32), g)
    pos = 0
    for m in re.finditer(r'%%|%([-+ 0#]*)(\d*)(?:\.(\d+))?(?:l|ll|h)?([a-zA-Z])|\n|[ \t\r]+|[^%\s]+', text):
        t = m.group(0)
        if t == '\n': ch.put(ctx, Fraction(0), 0, g); glue = 0
        elif t.isspace(): glue = 0
        elif m.group(4):
            if m.group(4) == 's': vals.pop(0); glue = 1; continue
            if m.group(4) not in CONV or not vals: raise Unsupported('format %r' % text)
            ch.put(ctx, vals.pop(0), kind_of(m.group(4), int(m.group(3)) if m.group(3) else None), g, glue if ch.fp is not None else 0); glue = 1
        else:
            if ch.fp is not None:
                if re.fullmatch(r'[-+]?\d+', t): ch.put(ctx, Fraction(int(t)), kind_of('d'), g, glue)
                else: ch.put(ctx, Fraction(0), 999, g)
            glue = 1
    if vals: raise Unsupported('too many values for format %r' % text)
    ctx.store(ch.glue, glue, INT(32), g)

def z3int(x): return isinstance(x, int) or (is_z(x) and z3.is_int(x))

SB = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
def strings(ctx, nm, dm, base, args, aa, I_, g):
    A = ctx.assumptions
    if 'std::' not in dm and '__gnu_cxx' not in dm: return NotImplemented
    head = dm
    if 'std::allocator<' in base and base.endswith(('allocator', '~allocator')) or '__new_allocator' in base:
        if 'allocate' in base.split('::')[-1] or 'construct' in base.split('::')[-1] or 'max_size' in base: return NotImplemented
        return None, g
    if head.startswith(SB + '::'):
        meth = head[len(SB) + 2:]
        m = meth.split('(')[0]
        sig = meth[len(m):]
        A.add('std::string operations follow their specification (abstract string values)')
        def src(i):
            if 'char const*' in sig: return cstrval(ctx, args[i])
            return strget(ctx, args[i], g)
        if m == 'basic_string':
            if len(args) == 1: strput(ctx, args[0], strlit(''), g)
            else: strput(ctx, args[0], src(1), g)
            return None, g
        if m == '~basic_string': return None, g
        if m in ('operator=', 'assign'):
            if 'char)' in sig and 'char const*' not in sig and 'basic_string' not in sig: strput(ctx, args[0], fresh_int('str'), g)
            else: strput(ctx, args[0], src(1), g)
            return args[0], g
        if m in ('operator+=', 'append', 'push_back', 'insert', 'erase', 'replace'):
            f = z3.Function('str_append', I, I, I)
            v = src(1) if 'char)' not in sig or 'char const*' in sig else args[1]
            strput(ctx, args[0], f(zi(strget(ctx, args[0], g)), zi(v)), g)
            return args[0], g
        if m == 'clear': strput(ctx, args[0], strlit(''), g); return None, g
        if m in ('c_str', 'data'):
            r = Region('cstr', INT(8), None, 'heap', 1, ctx.seq + 1)
            r.strof = strget(ctx, args[0], g)
            return Ptr(r, (0,)), g
        if m in ('compare',):
            v = cmp('eq', strget(ctx, args[0], g), src(1))
            r = fresh_int('compare')
            ctx.assume(zb(cmp('eq', r, 0)) == zb(v))
            return r, g
        if m == 'empty': return cmp('eq', strget(ctx, args[0], g), strlit('')), g
        if m in ('size', 'length'):
            f = z3.Function('str_len', I, I); return f(zi(strget(ctx, args[0], g))), g
        if m in ('find', 'rfind', 'find_first_of', 'find_last_of'):
            return fresh_int('find'), g
        if m in ('operator[]', 'at', 'back', 'front'):
            r = Region('strch', INT(8), 1, 'heap', 1, ctx.seq + 1)
            return Ptr(r, (0,)), g
        if m == 'substr':
            f = z3.Function('str_sub', I, I, I, I)
            strput(ctx, args[0], f(zi(strget(ctx, args[1], g)), zi(args[2]), zi(args[3])), g)
            return None, g
        if m in ('reserve', 'resize', 'begin', 'end'):
            return Opaque(m), g
        return NotImplemented
    # free string operators
    mm = re.search(r'(bool|%s) std::operator(==|!=|\+|<)<char' % re.escape(SB), dm)
    if mm:
        A.add('std::string operations follow their specification (abstract string values)')
        sig = dm[mm.end():]
        sig = sig[sig.index('('):]
        op = mm.group(2)
        ps = split_args(sig)
        off = 1 if op == '+' else 0
        vs = []
        for j, t in enumerate(ps):
            a = args[off + j]
            if t.startswith('char const*'): vs.append(cstrval(ctx, a))
            elif 'basic_string' in t: vs.append(strget(ctx, a, g))
            else: vs.append(a)
        if op == '==': return cmp('eq', vs[0], vs[1]), g
        if op == '!=': return cmp('ne', vs[0], vs[1]), g
        if op == '<': return fresh_bool('strlt'), g
        f = z3.Function('str_append', I, I, I)
        strput(ctx, args[0], f(zi(vs[0]), zi(vs[1])), g)
        return None, g
    # streams
    if re.search(r'std::operator<<', dm) or dm.startswith('std::ostream::') or dm.startswith('std::ostream&') or 'std::endl' in dm or 'std::basic_ostream' in base.split('::operator')[0] and 'operator<<' in dm:
        return (args[0] if args else None), g
    if dm.startswith('std::istream::operator>>'):
        A.add('stream extraction stores an arbitrary value')
        t = re.search(r'operator>>\((\w[\w ]*)&\)', dm)
        if t and isinstance(args[1], (Ptr, PtrIte)):
            ty = {'double': DBL, 'int': INT(32), 'float': FLT, 'unsigned int': INT(32), 'bool': INT(8), 'long': INT(64)}.get(t.group(1))
            if ty is None: raise Unsupported(dm)
            v = fresh_real('in') if ty in (DBL, FLT) else fresh_int('in')
            ctx.store(args[1], v, ty, g)
        return args[0], g
    if 'std::operator>>' in dm:
        A.add('stream extraction stores an arbitrary value')
        if 'basic_string' in dm.split('operator>>')[1] and isinstance(args[1], Ptr): strput(ctx, args[1], fresh_int('str'), g)
        elif isinstance(args[1], (Ptr, PtrIte)):
            ty = ctx.type_at(args[1]) if isinstance(args[1], Ptr) else None
            if ty is not None and ty.res().k in ('double', 'int'): ctx.store(args[1], ctx.fresh_of(ty, 'in'), ty, g)
        return args[0], g
    if 'std::getline' in dm:
        if isinstance(args[1], Ptr): strput(ctx, args[1], fresh_int('line'), g)
        return args[0], g
    if re.match(r'std::(basic_(if|of|i|o|)(stream|stringstream|ios)|__cxx11::basic_[io]?stringstream|istream|ios_base|setw|setprecision|setiosflags|istream_iterator|basic_fstream|basic_ifstream|basic_ofstream|fixed|scientific|left|right|endl)', dm):
        m = base.split('::')[-1]
        if m in ('operator!', 'operator bool', 'eof', 'is_open', 'fail', 'good', 'bad'): return fresh_bool('io'), g
        if m == 'str' and len(args) == 2 and isinstance(args[0], Ptr) and 'const' in dm.split(')')[-1]:
            strput(ctx, args[0], fresh_int('str'), g); return None, g
        if m == 'getline': return args[0], g
        return (ctx.fresh_of(I_.ty, 'io') if I_.ty is not VOID and I_.ty.res().k != 'ptr' else (args[0] if args and I_.ty.res().k == 'ptr' else None)), g
    if 'std::ios_base' in dm and base.split('::')[-1] in ('setf', 'unsetf', 'precision', 'flags', 'width', 'fixed', 'scientific'): return (ctx.fresh_of(I_.ty, 'io') if I_.ty is not VOID else None), g
    if re.match(r'(double|int|float)\* std::fill_n<', dm) or re.match(r'(double|int|float|void) ?\*? ?std::fill<', dm):
        # fill_n(p, n, const&)
        if 'fill_n' not in dm:
            m = re.search(r'std::fill<(\w+)\*, (\w+)>', dm)
            if not m or not all(isinstance(x, Ptr) for x in args[:2]) or args[0].r is not args[1].r or args[0].path[:-1] != args[1].path[:-1] or m.group(1) not in ('double', 'int', 'float'): return NotImplemented
            ty = {'d': DBL, 'i': INT(32), 'f': FLT}[m.group(1)[0]]
            v = ctx.load(args[2], {'double': DBL, 'int': INT(32), 'float': FLT}[m.group(2)], g)
            if ty is not INT(32) and ty.k == 'double' and not real(v): v = zr(v) if is_z(v) else Fraction(v)
            fill_range(ctx, args[0], sub(args[1].path[-1], args[0].path[-1]), v, ty, g)
            return None, g
        ty = {'d': DBL, 'i': INT(32), 'f': FLT}[dm[0]]
        v = None
        t3 = re.search(r'fill_n<\w+\*, \w+, (\w+)>', dm).group(1)
        v = ctx.load(args[2], {'double': DBL, 'int': INT(32), 'float': FLT}[t3], g)
        if ty is not INT(32) and ty.k == 'double' and not real(v): v = zr(v) if is_z(v) else Fraction(v)
        fill_range(ctx, args[0], args[1], v, ty, g)
        return args[0], g
    if re.match(r'(int|double|float|long|unsigned long|unsigned int) const& std::(max|min)<', dm):
        a, b = args
        t = {'i': INT(32), 'd': DBL, 'f': FLT, 'l': INT(64), 'u': INT(64)}[dm[0]]
        x, y = ctx.load(a, t, g), ctx.load(b, t, g)
        mx = 'std::max<' in dm
        c = cmp('lt', x, y) if mx else cmp('lt', y, x)
        r = Region('minmax', t, 1, 'alloca', 1, ctx.seq + 1)
        ctx.store(Ptr(r, (0,)), ite(c, y, x), t, g)
        return Ptr(r, (0,)), g
    if base.startswith('std::function<double ()>::') or 'std::function<double ()>' in base: return Opaque('std::function'), g
    r = vectors(ctx, nm, dm, base, args, aa, I_, g)
    return r

def split_args(sig):
    d = 0; cur = ''; out = []
    for ch in sig[1:]:
        if ch == ')' and d == 0: break
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

# ------------------------------------------------------------ vectors of numbers
VT = {'double': DBL, 'int': INT(32)}
def vec_cells(p, kind):
    path = list(p.path)
    shape = tuple('*' if not isinstance(x, tuple) else x[1] for x in path) + (kind,)
    idx = tuple(x for x in path if not isinstance(x, tuple))
    return shape, idx
def vectors(ctx, nm, dm, base, args, aa, I_, g):
    m = re.match(r'(?:.*? )?std::vector<(double|int), std::allocator<\1>>::([~\w\[\]=]+(?:\[\])?)', dm)
    if not m or not dm.startswith('std::vector<'): return NotImplemented
    ty = VT[m.group(1)]; meth = m.group(2)
    ctx.assumptions.add('std::vector operations follow their specification (abstract sequence)')
    p = args[0]
    if not isinstance(p, Ptr): return NotImplemented
    ssh, six = vec_cells(p, '$n')
    dsh, dix = vec_cells(p, '$v')
    ctx.vtypes[p.r, dsh] = ty
    def size():
        v = ctx.read(p.r, ssh, six, INT(64), g)
        if is_z(v): ctx.assume(v >= 0)
        return v
    def setsize(v): ctx.wr(p.r, ssh, Write(0, g, six, v, line=ctx.line))
    if meth == 'vector' and len(args) == 1 or meth == 'clear': setsize(0); return None, g
    if meth == '~vector': return None, g
    if meth == 'size': return size(), g
    if meth == 'empty': return cmp('eq', size(), 0), g
    if meth == 'push_back':
        n = size()
        v = ctx.load(args[1], ty, g)
        ctx.wr(p.r, dsh + ('*',), Write(0, g, dix + (n,), v, line=ctx.line))
        setsize(add(n, 1)); return None, g
    if meth in ('operator[]', 'at'):
        i = args[1]
        if ctx.check_bounds and not ctx.dry:
            ctx.oblige('index of vector %s stays in bounds' % p.r.name, band(cmp('ge', i, 0), cmp('lt', i, size())), g, 'bounds')
        # pointer into a shadow region
        key = (p.r, dsh)
        return Ptr(VecView(ctx, p.r, dsh, len(dix), ty), dix + (i,)), g
    if meth in ('vector', 'operator=') and len(args) == 2 and isinstance(args[1], Ptr):
        q = args[1]
        s2, i2 = vec_cells(q, '$n'); d2, j2 = vec_cells(q, '$v')
        setsize(ctx.read(q.r, s2, i2, INT(64), g))
        k = fresh_int('k')
        e = ctx.read(q.r, d2 + ('*',), j2 + (k,), ty, g)
        ctx.wr(p.r, dsh + ('*',), Write(0, g, dix + (None,), None, hav=lambda q_, e=e, k=k: subst(e, [(k, zi(q_[-1]))]) if is_z(e) else e, line=ctx.line))
        return (args[0] if meth == 'operator=' else None), g
    return NotImplemented

_views = {}
def VecView(ctx, r, dsh, n, ty):
    """region aliasing the element sequence of a vector: same log key"""
    k = (id(ctx), r.uid, dsh)
    if k in _views and _views[k][0] is ctx: return _views[k][1]
    v = Region('%s.elems' % r.name, ty, None, 'view', n + 1, -1)
    v.alias = (r, dsh)
    _views[k] = (ctx, v)
    return v

def fill_range(ctx, p, n, v, ty, g):
    if isinstance(p, PtrIte):
        for c, q in p.alts:
            gg = g.land(c)
            if gg is not None: fill_range(ctx, q, n, v, ty, gg)
        return
    if not isinstance(p, Ptr): raise Unsupported('fill of %r' % p)
    if p.r.elty is None: ctx.settype(p.r, ty)
    path = list(p.path)
    for _ in range(4):
        t = ctx.type_at(Ptr(p.r, path))
        if ctx.tsame(t, ty): break
        if t.res().k == 'array': path.append(0)
        elif t.res().k == 'struct': path.append(('f', 0))
        else: raise Unsupported('fill type')
    if isinstance(path[-1], tuple): raise Unsupported('fill of a field')
    shape = tuple('*' if not isinstance(x, tuple) else x[1] for x in path)
    idx = [x for x in path if not isinstance(x, tuple)]
    a = idx[-1]
    if ctx.check_bounds and not ctx.dry:
        ctx.bounds(p.r, path[:-1] + [a], g.land(cmp('gt', n, 0)) or g, 'fill start')
        ctx.bounds(p.r, path[:-1] + [sub(add(a, n), 1)], g.land(cmp('gt', n, 0)) or g, 'fill end')
    k = fresh_int('k')
    ctx.wr(p.r, shape, Write(0, g, idx, v, vars=[(k, n, len(idx) - 1, a, 1)], line=ctx.line))

def data_end(t):
    """size without tail padding"""
    t = t.res()
    if t.k == 'struct' and t.fields:
        l = len(t.fields) - 1
        f = t.fields[l].res()
        if l > 0 and f.k == 'array' and f.n < 8 and f.el.res().k == 'int' and f.el.res().n == 8: l -= 1      # explicit padding
        return field_offsets(t)[l] + data_end(t.fields[l])
    return sizeof(t)
def mem_copy(ctx, fr, args, g):
    d, s_, n = args[0], args[1], args[2]
    if not isinstance(d, Ptr) or not isinstance(s_, Ptr):
        if isinstance(d, PtrIte) and isinstance(s_, Ptr):
            for c, q in d.alts:
                gg = g.land(c)
                if gg is not None: mem_copy(ctx, fr, [q, s_, n], gg)
            return
        raise Unsupported('memcpy through %r %r' % (d, s_))
    td, ts = (ctx.type_at(x) if x.r.elty is not None else None for x in (d, s_))
    t = td or ts
    if t is None: raise Unsupported('memcpy of untyped memory')
    if d.r.elty is None: ctx.settype(d.r, t)
    if s_.r.elty is None: ctx.settype(s_.r, t)
    if not is_c(n): raise Unsupported('memcpy of symbolic size')
    # leading members of a struct
    if is_c(n) and td is not None and ts is not None and sizeof(td) < n and d.path[-1] == s_.path[-1] == ('f', 0):
        d, s_ = Ptr(d.r, d.path[:-1]), Ptr(s_.r, s_.path[:-1]); td, ts = ctx.type_at(d), ctx.type_at(s_); t = td
    if td is not None and ts is not None and ctx.tsame(td, ts) and t.res().k == 'struct' and sizeof(t) > n:
        offs = field_offsets(t.res())
        if n in offs[1:]:
            for i in range(offs.index(n)):
                f = t.res().fields[i]
                a, b = Ptr(d.r, tuple(d.path) + (('f', i),)), Ptr(s_.r, tuple(s_.path) + (('f', i),))
                if f.res().k in ('struct', 'array'): ctx.copy_obj(a, b, f, g)
                else: ctx.store(a, ctx.load(b, f, g), f, g)
            return
    # a run of members of a struct
    fi = lambda x: x.path[-1][1] if x.path and isinstance(x.path[-1], tuple) and x.path[-1][0] == 'f' else None
    if td is not None and ts is not None and sizeof(td) < n and fi(d) is not None and fi(d) == fi(s_):
        P1, P2 = Ptr(d.r, d.path[:-1]), Ptr(s_.r, s_.path[:-1]); o1, o2 = ctx.type_at(P1), ctx.type_at(P2)
        if ctx.tsame(o1, o2) and o1.res().k == 'struct':
            st_, k = o1.res(), fi(d); offs = field_offsets(st_); end = offs[k] + n
            for j in range(k + 1, len(st_.fields) + 1):
                stop = offs[j] if j < len(st_.fields) else sizeof(st_)
                last = offs[j - 1] + data_end(st_.fields[j - 1])
                if last <= end <= stop:
                    for i in range(k, j):
                        f = st_.fields[i]; a, b = Ptr(P1.r, tuple(P1.path) + (('f', i),)), Ptr(P2.r, tuple(P2.path) + (('f', i),))
                        if f.res().k in ('struct', 'array'): ctx.copy_obj(a, b, f, g)
                        else: ctx.store(a, ctx.load(b, f, g), f, g)
                    return
    # descend to a type of the right size
    def down(p):
        path = list(p.path)
        while True:
            t = ctx.type_at(Ptr(p.r, path)).res()
            if sizeof(t) == n or t.k == 'struct' and sizeof(t) > n >= data_end(t): return Ptr(p.r, path), t
            if t.k == 'array' and sizeof(t) > n: path.append(0)
            elif t.k == 'struct' and sizeof(t) > n: path.append(('f', 0))
            elif sizeof(t) < n and path and not isinstance(path[-1], tuple): return Ptr(p.r, path), t
            elif sizeof(t) < n and is_c(path[-1]) is False and path: return Ptr(p.r, path), t
            else: return Ptr(p.r, path), t
    d2, t1 = down(d); s2, t2 = down(s_)
    full = lambda t: sizeof(t) == n or t.k == 'struct' and sizeof(t) > n >= data_end(t)
    if full(t1) and full(t2) and t1.k == t2.k:
        if t1.k in ('struct', 'array'):
            ctx.copy_obj(d2, s2, t1, g)
        else: ctx.store(d2, ctx.load(s2, t1, g), t1, g)
        return
    # n bytes = several elements of the element type
    et = t1 if sizeof(t1) < n else t2
    if sizeof(t1) == n and t1.k == 'array': d2 = Ptr(d2.r, d2.path + (0,)); et = t1.el
    if sizeof(t2) == n and t2.k == 'array': s2 = Ptr(s2.r, s2.path + (0,)); et = t2.el
    if et is not None and n % sizeof(et) == 0 and n // sizeof(et) <= 64:
        c = n // sizeof(et)
        vals = [ctx.load(Ptr(s2.r, s2.path[:-1] + (add(s2.path[-1], i),)), et, g) for i in range(c)]
        for i, v in enumerate(vals): ctx.store(Ptr(d2.r, d2.path[:-1] + (add(d2.path[-1], i),)), v, et, g)
        return
    raise Unsupported('memcpy layout %s %s %s' % (t1, t2, n))

def mem_set(ctx, fr, args, g):
    d, v, n = args[0], args[1], args[2]
    if not isinstance(d, Ptr): raise Unsupported('memset through %r' % d)
    if not (is_c(v) and v == 0):
        raise Unsupported('memset with nonzero byte')
    if d.r.elty is None: ctx.settype(d.r, INT(8))
    t = ctx.type_at(d).res()
    path = list(d.path)
    if is_c(n):
        while sizeof(t) > n and t.k in ('array', 'struct'):
            path.append(0 if t.k == 'array' else ('f', 0)); t = ctx.type_at(Ptr(d.r, path)).res()
        cnt = 1
        if sizeof(t) < n:
            if n % sizeof(t): raise Unsupported('memset size')
            cnt = n // sizeof(t)
        zero_obj(ctx, Ptr(d.r, path), t, g, cnt)
        return
    q = exact_div(n, sizeof(t))
    if q is None: raise Unsupported('memset of symbolic size')
    zero_obj(ctx, Ptr(d.r, path), t, g, q)
def zero_obj(ctx, p, t, g, cnt=1):
    for lp, lt in ctx.leafs(t):
        full = list(p.path) + list(lp)
        shape, idx, vars_ = [], [], []
        for pos, x in enumerate(full):
            if isinstance(x, tuple) and x[0] == 'f': shape.append(x[1])
            elif isinstance(x, tuple):
                k = fresh_int('k'); shape.append('*'); vars_.append((k, x[1], len(idx), 0, 1)); idx.append(0)
            else:
                if pos == len(p.path) - 1 and not (is_c(cnt) and cnt == 1):
                    k = fresh_int('k'); vars_.append((k, cnt, len(idx), x, 1))
                shape.append('*'); idx.append(x)
        z = Fraction(0) if lt.k in ('double', 'float') else NULL if lt.k == 'ptr' else 0
        ctx.wr(p.r, tuple(shape), Write(0, g, idx, z, vars=vars_, line=ctx.line))
