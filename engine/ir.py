"""Parser for the textual LLVM IR that clang produces from /repo's sources.

The verified text is this IR.  It is regenerated from /repo's working tree on
every run (see build_ir) and nothing in it is edited by hand."""
import os, re, subprocess, hashlib, functools
from fractions import Fraction
import struct as _struct

class IRError(Exception):
    """the front end met something it does not handle (never a violation)"""

# ---------------------------------------------------------------- types
def snap(x):
    """decimal constant meant by a double: 13 significant digits"""
    x = float(x)
    if x == int(x) and abs(x) < 1e15: return Fraction(int(x))
    return Fraction('%.13g' % x)

class T:
    __slots__ = ('k', 'n', 'el', 'fields', 'name', 'mod', 'packed')
    def __init__(s, k, n=0, el=None, fields=None, name=None, mod=None, packed=False):
        s.k, s.n, s.el, s.fields, s.name, s.mod, s.packed = k, n, el, fields, name, mod, packed
    def res(s):
        if s.k == 'named':
            return s.mod.struct(s.name)
        return s
    def key(s):
        if s.k == 'named': return s.name
        if s.k == 'array': return '[%dx%s]' % (s.n, s.el.key())
        if s.k == 'int': return 'i%d' % s.n
        if s.k == 'struct':
            return s.name or '{%s}' % ','.join(f.key() for f in s.fields)
        return s.k
    def __repr__(s): return s.key()

VOID, PTR, DBL, FLT = T('void'), T('ptr'), T('double'), T('float')
LABEL, META, X86 = T('label'), T('metadata'), T('x86_fp80')
_INTS = {}
def INT(n):
    if n not in _INTS: _INTS[n] = T('int', n)
    return _INTS[n]

def size_align(t):
    t = t.res()
    k = t.k
    if k == 'int':
        b = max(1, (t.n + 7) // 8)
        p = 1
        while p < b: p *= 2
        return p, min(p, 16)
    if k == 'double': return 8, 8
    if k == 'float': return 4, 4
    if k == 'x86_fp80': return 16, 16
    if k == 'ptr': return 8, 8
    if k == 'array':
        s, a = size_align(t.el); return s * t.n, a
    if k == 'struct':
        off, al = 0, 1
        for f in t.fields:
            s, a = size_align(f)
            if t.packed: a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise IRError('size of type ' + k)

def sizeof(t): return size_align(t)[0]

def field_offsets(t):
    t = t.res(); off = 0; out = []
    for f in t.fields:
        s, a = size_align(f)
        if t.packed: a = 1
        off = (off + a - 1) // a * a
        out.append(off); off += s
    return out

# ---------------------------------------------------------------- lexer
TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>![\w.]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+e[+-]?\d+|0x[KLMH]?[0-9A-Fa-f]+|-?\d+)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[=,()\[\]{}<>*:|])
)''', re.X)

def lex(s):
    pos, out, n = 0, [], len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'): break
            raise IRError('lex: ' + s[pos:pos+60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out

def unq(name):
    # %"foo" -> %foo
    if len(name) > 1 and name[1] == '"': return name[0] + name[2:-1]
    return name

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone','writeonly','returned',
  'immarg','nofree','inreg','noreturn','nounwind','swiftself','allocptr','allocalign','nest','dead_on_unwind','writable'}
CCS = {'tail','musttail','notail','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','fastcc','ccc','coldcc'}

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t, s.i, s.mod = toks, 0, mod
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else ('eof', '')
    def next(s):
        r = s.peek(); s.i += 1; return r
    def eat(s, v):
        if s.peek()[1] == v: s.i += 1; return True
        return False
    def exp(s, v):
        r = s.next()
        if r[1] != v: raise IRError('expected %s got %s' % (v, r[1]))
    def type(s):
        k, v = s.next()
        if k == 'word':
            if v == 'void': t = VOID
            elif v == 'ptr': t = PTR
            elif v == 'double': t = DBL
            elif v == 'float': t = FLT
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'x86_fp80': t = X86
            elif re.fullmatch(r'i\d+', v): t = INT(int(v[1:]))
            elif v == 'opaque': t = T('struct', fields=[], name='opaque')
            else: raise IRError('type ' + v)
            if t is PTR and s.peek()[1] == 'addrspace':
                s.next(); s.exp('('); s.next(); s.exp(')')
        elif k == 'loc':
            t = T('named', name=unq(v)[1:], mod=s.mod)
        elif v == '[':
            n = int(s.next()[1]); s.exp('x'); el = s.type(); s.exp(']')
            t = T('array', n=n, el=el)
        elif v == '{':
            fs = []
            if not s.eat('}'):
                while True:
                    fs.append(s.type())
                    if s.eat('}'): break
                    s.exp(',')
            t = T('struct', fields=fs)
        elif v == '<':
            if s.peek()[1] == '{':
                t = s.type(); s.exp('>'); t.packed = True
            else:
                n = int(s.next()[1]); s.exp('x'); el = s.type(); s.exp('>')
                t = T('vector', n=n, el=el)
        else: raise IRError('type tok ' + v)
        # function type suffix
        if s.peek()[1] == '(':
            d = 0
            while True:
                x = s.next()[1]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            t = T('func', el=t)
        return t
    def attrs(s):
        a = {}
        while True:
            k, v = s.peek()
            if k == 'word' and v in PARAM_ATTRS: s.next(); a[v] = True
            elif k == 'word' and v in ('align',):
                s.next()
                if s.eat('('): s.next(); s.exp(')')
                else: s.next()
            elif k == 'word' and v in ('dereferenceable','dereferenceable_or_null','sret','byval','elementtype','captures','range'):
                s.next(); s.exp('(')
                if v in ('sret','byval','elementtype'):
                    a[v] = s.type()
                    s.exp(')')
                else:
                    d = 1
                    while d:
                        x = s.next()[1]
                        if x == '(': d += 1
                        if x == ')': d -= 1
            else: return a
    def value(s, t):
        """operand of type t -> ('c',const) | ('l',name) | ('g',name) | ..."""
        k, v = s.next()
        if k == 'loc': return ('l', unq(v)[1:])
        if k == 'glob': return ('g', unq(v)[1:])
        if k == 'num':
            if v.startswith('0x'):
                if t.res().k in ('double', 'float'):
                    if v[2] in 'KLMH': return ('undef', t)
                    d = _struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
                    if d != d or d in (float('inf'), float('-inf')): return ('special', d)
                    return ('c', snap(d))
                return ('c', int(v, 16))
            if t.res().k in ('double', 'float'): return ('c', snap(float(v)))
            return ('c', int(v))
        if k == 'word':
            if v in ('true', 'false'): return ('c', v == 'true')
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef', t)
            if v == 'zeroinitializer': return ('zero', t)
            if v == 'getelementptr':
                s.eat('inbounds'); s.exp('('); bt = s.type(); s.exp(',')
                pt = s.type(); base = s.value(pt); idx = []
                while s.eat(','):
                    s.eat('inrange')
                    it = s.type(); idx.append((it, s.value(it)))
                s.exp(')')
                return ('gep', bt, base, idx)
            if v in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                s.exp('('); ft = s.type(); x = s.value(ft); s.exp('to'); s.type(); s.exp(')')
                return x
            if v in ('sub','add'):
                raise IRError('constexpr ' + v)
        if k == 'str': return ('cstr', v)
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            out = []
            if not s.eat(close):
                while True:
                    et = s.type(); out.append((et, s.value(et)))
                    if s.eat(close): break
                    s.exp(',')
            return ('agg', out)
        if v == '<':
            raise IRError('vector constant')
        raise IRError('value tok %s %s' % (k, v))

class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'raw')
    def __repr__(s): return '%s = %s %s' % (s.dst, s.op, s.a)

class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'phis')
    def __init__(s, name): s.name, s.ins, s.succ, s.pred, s.phis = name, [], [], [], []

class Func:
    def __init__(s, mod, name, header, body):
        s.mod, s.name, s.header, s.body = mod, name, header, body
        s.blocks = None
        s.params, s.ret = [], None
        s.parse_header()
    def parse_header(s):
        h = s.header
        i = h.index('@')
        m = re.match(r'@("[^"]*"|[-\w.$]+)\(', h[i:])
        pre = lex(h[:i])
        # return type = last type in prefix
        p = P(pre, s.mod)
        rt = None
        while p.i < len(p.t):
            j = p.i
            try:
                rt = p.type()
            except IRError:
                p.i = j + 1
        s.ret = rt
        # params text
        j = i + m.end() - 1
        d = 0; inq = False
        for e in range(j, len(h)):
            c = h[e]
            if c == '"': inq = not inq
            if inq: continue
            if c == '(': d += 1
            if c == ')':
                d -= 1
                if d == 0: break
        p = P(lex(h[j+1:e]), s.mod)
        while p.peek()[0] != 'eof':
            if p.peek()[0] == 'dots': p.next(); continue
            t = p.type(); at = p.attrs()
            n = None
            if p.peek()[0] == 'loc': n = unq(p.next()[1])[1:]
            s.params.append((t, n, at))
            p.eat(',')
    def parse(s):
        if s.blocks is not None: return s
        s.blocks = {}
        s.order = []
        cur = None
        for ln in s.body:
            if not ln or ln[0] == '}': continue
            if ln[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w.$]+):', ln)
                if not m: continue
                nm = m.group(1).strip('"')
                cur = Block(nm); s.blocks[nm] = cur; s.order.append(nm)
                continue
            st = ln.strip()
            if not st or st[0] == ';': continue
            if 'llvm.dbg.' in st: continue
            if cur is None:
                cur = Block('entry'); s.blocks['entry'] = cur; s.order.append('entry')
            if st.startswith('switch') or s._sw is not None:
                # switch spans lines
                s._sw = (s._sw or '') + ' ' + st
                if ']' not in st: continue
                st = s._sw.strip(); s._sw = None
            ins = s.parse_ins(st)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)
        for b in s.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = [t.a[-1]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            else: b.succ = []
        for b in s.blocks.values():
            for x in dict.fromkeys(b.succ): s.blocks[x].pred.append(b.name)
        s.entry = s.order[0]
        s.find_loops()
        return s
    _sw = None
    def parse_ins(s, st):
        line = 0
        m = re.search(r',? !dbg !(\d+)', st)
        if m: line = s.mod.dbg_line(m.group(1))
        cut = re.search(r', !(dbg|tbaa|llvm|srcloc|noalias|alias|range|prof|nonnull|heapallocsite|tbaa.struct)', st)
        body = st[:cut.start()] if cut else st
        p = P(lex(body), s.mod)
        I = Ins(); I.line = line; I.dst = None; I.raw = None; I.ty = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            I.dst = unq(p.next()[1])[1:]; p.next()
        k, op = p.next()
        while op in CCS: k, op = p.next()
        I.op = op
        if op in ('add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr',
                  'fadd','fsub','fmul','fdiv','frem'):
            while p.peek()[1] in ('nsw','nuw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint'): p.next()
            t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            I.ty = t; I.a = (a, b)
        elif op == 'fneg':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            t = p.type(); I.ty = t; I.a = (p.value(t),)
        elif op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            pr = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            I.ty = t; I.a = (pr, a, b)
        elif op in ('sext','zext','trunc','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','bitcast','ptrtoint','inttoptr'):
            while p.peek()[1] in ('nneg','nuw','nsw'): p.next()
            t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
            I.ty = t2; I.a = (t, a)
        elif op == 'getelementptr':
            while p.peek()[1] in ('inbounds','nuw','nusw'): p.next()
            bt = p.type(); p.exp(','); pt = p.type(); base = p.value(pt); idx = []
            while p.eat(','):
                it = p.type(); idx.append((it, p.value(it)))
            I.ty = PTR; I.a = (bt, base, idx)
        elif op == 'load':
            p.eat('volatile'); p.eat('atomic')
            t = p.type(); p.exp(','); pt = p.type(); I.ty = t; I.a = (p.value(pt),)
        elif op == 'store':
            p.eat('volatile'); p.eat('atomic')
            t = p.type(); v = p.value(t); p.exp(','); pt = p.type(); I.ty = t; I.a = (v, p.value(pt))
        elif op == 'alloca':
            t = p.type(); n = None
            if p.eat(','):
                if p.peek()[1] != 'align':
                    nt = p.type(); n = (nt, p.value(nt))
            I.ty = t; I.a = (n,)
        elif op == 'br':
            t = p.type()
            if t is LABEL: I.a = (unq(p.next()[1])[1:],)
            else:
                c = p.value(t); p.exp(','); p.type(); l1 = unq(p.next()[1])[1:]; p.exp(','); p.type(); l2 = unq(p.next()[1])[1:]
                I.a = (c, l1, l2)
        elif op == 'switch':
            t = p.type(); c = p.value(t); p.exp(','); p.type(); d = unq(p.next()[1])[1:]; p.exp('[')
            cs = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.exp(','); p.type(); cs.append((cv, unq(p.next()[1])[1:]))
            I.ty = t; I.a = (c, d, cs)
        elif op == 'ret':
            t = p.type(); I.ty = t; I.a = (p.value(t),) if t is not VOID else ()
        elif op == 'unreachable': I.a = ()
        elif op == 'phi':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            t = p.type(); inc = {}
            while True:
                p.exp('['); v = p.value(t); p.exp(','); l = unq(p.next()[1])[1:]; p.exp(']')
                inc[l] = v
                if not p.eat(','): break
            I.ty = t; I.a = inc
        elif op == 'select':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); p.type(); b = p.value(t)
            I.ty = t; I.a = (c, a, b)
        elif op in ('call', 'invoke'):
            while p.peek()[1] in CCS: p.next()
            p.attrs(); t = p.type()
            if t.k == 'func': t = t.el
            k, callee = p.next()
            if k == 'word' and callee == 'asm': raise IRError('inline asm')
            callee = (k, unq(callee)[1:])
            p.exp('('); args = []
            if not p.eat(')'):
                while True:
                    at = p.type(); pa = p.attrs()
                    if at is META:
                        args.append((at, None, pa))
                        d = 0
                        while True:
                            x = p.peek()[1]
                            if d == 0 and x in (',', ')'): break
                            if x == '(': d += 1
                            if x == ')': d -= 1
                            p.next()
                    else: args.append((at, p.value(at), pa))
                    if p.eat(')'): break
                    p.exp(',')
            I.ty = t; I.a = (callee, args)
        elif op == 'extractvalue':
            t = p.type(); v = p.value(t); ix = []
            while p.eat(','): ix.append(int(p.next()[1]))
            I.ty = t; I.a = (v, ix)
        elif op == 'insertvalue':
            t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); v2 = p.value(t2); ix = []
            while p.eat(','): ix.append(int(p.next()[1]))
            I.ty = t; I.a = (v, v2, ix)
        elif op == 'freeze':
            t = p.type(); I.ty = t; I.a = (p.value(t),)
        else:
            I.raw = st; I.op = 'unsupported'; I.a = (op,)
        return I
    # ------------------------------------------------ loops
    def find_loops(s):
        B = s.blocks
        # dominators (iterative)
        order, seen = [], set()
        def dfs(x):
            st = [(x, iter(B[x].succ))]; seen.add(x)
            while st:
                n, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(B[y].succ))); break
                else:
                    order.append(n); st.pop()
        dfs(s.entry)
        rpo = order[::-1]
        s.rpo = rpo
        idx = {b: i for i, b in enumerate(rpo)}
        s.rpo_idx = idx
        idom = {s.entry: s.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in B[b].pred if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while idx[a] > idx[c]: a = idom[a]
                        while idx[c] > idx[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == s.entry: return False
                b = idom[b]
        s.idom = idom
        loops = {}
        for b in rpo:
            for x in B[b].succ:
                if x in idx and idx[x] <= idx[b]:
                    if not dom(x, b): raise IRError('irreducible loop in ' + s.name)
                    body = loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y in body: continue
                        body.add(y); st += B[y].pred
        s.loops = loops                       # header -> set of blocks
        s.loop_of = {}                        # block -> innermost header
        for h, body in sorted(loops.items(), key=lambda kv: -len(kv[1])):
            for b in body: s.loop_of[b] = h
        s.loop_parent = {}
        for h in loops:
            par = None
            for g, body in loops.items():
                if g != h and h in body and (par is None or len(body) < len(loops[par])): par = g
            s.loop_parent[h] = par

class Global:
    def __init__(s, mod, name, ty, init, internal, const, ext):
        s.mod, s.name, s.ty, s.init, s.internal, s.const, s.ext = mod, name, ty, init, internal, const, ext

class Module:
    def __init__(s, path, src):
        s.path, s.src = path, src
        s.structs, s.struct_txt, s.globals, s.funcs, s.decls = {}, {}, {}, {}, set()
        s.meta = {}
        s.ftext = {}
        s.load()
    def load(s):
        cur = None
        for ln in open(s.path):
            ln = ln.rstrip('\n')
            if cur is not None:
                cur[1].append(ln)
                if ln == '}': cur = None
                continue
            if not ln: continue
            c = ln[0]
            if c == '%':
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)', ln)
                s.struct_txt[m.group(1).strip('"')] = m.group(2)
            elif c == '@':
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', ln)
                s.globals[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('define'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                nm = m.group(1).strip('"')
                cur = (ln, [])
                s.ftext[nm] = cur
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)', ln)
                if m: s.meta[m.group(1)] = m.group(2)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                if m: s.decls.add(m.group(1).strip('"'))
    def struct(s, name):
        if name in s.structs: return s.structs[name]
        if name not in s.struct_txt: raise IRError('struct ' + name)
        t = P(lex(s.struct_txt[name]), s).type()
        t = T('struct', fields=t.fields, name=name, mod=s, packed=t.packed)
        s.structs[name] = t
        return t
    def dbg_line(s, n):
        m = s.meta.get(n)
        if not m: return 0
        r = re.search(r'line: (\d+)', m)
        return int(r.group(1)) if r else 0
    def func(s, name):
        if name in s.funcs: return s.funcs[name]
        if name in s.ftext:
            f = Func(s, name, s.ftext[name][0], s.ftext[name][1])
            s.funcs[name] = f
            return f
        return None
    def glob(s, name):
        g = s.globals.get(name)
        if g is None: return None
        if isinstance(g, Global): return g
        ext = bool(re.match(r'(external|extern_weak)', g)) or ' external ' in g.split('global')[0].split('constant')[0]
        internal = g.startswith('internal') or g.startswith('private')
        m = re.search(r'\b(global|constant) ', g)
        if not m: raise IRError('global ' + name)
        rest = re.sub(r', (align|comdat|section|!dbg).*$', '', g[m.end():])
        p = P(lex(rest), s)
        ty = p.type(); init = None
        if p.peek()[0] != 'eof' and not ext:
            try: init = p.value(ty)
            except IRError: init = None
        G = Global(s, name, ty, init, internal, m.group(1) == 'constant', ext)
        s.globals[name] = G
        return G
    @functools.lru_cache(None)
    def never_written(s, name):
        """an internal variable of scalar type that is only ever loaded keeps its initial value"""
        pat = re.compile(r'@%s(?![-\w.$])' % re.escape(name)); ld = re.compile(r'= load [^,]+, ptr @%s,' % re.escape(name))
        for hd, lines in s.ftext.values():
            for ln in lines:
                if pat.search(ln) and not ld.search(ln): return False
        for n, g in s.globals.items():
            if isinstance(g, str) and n != name and pat.search(g): return False
        return True
    # field name lookup through debug info
    @functools.lru_cache(None)
    def _di(s):
        comp = {}
        for k, v in s.meta.items():
            if 'DICompositeType(' in v and ('DW_TAG_class_type' in v or 'DW_TAG_structure_type' in v):
                nm = re.search(r'name: "([^"]+)"', v)
                el = re.search(r'elements: !(\d+)', v)
                if nm and el: comp.setdefault(nm.group(1), []).append(el.group(1))
        return comp
    @functools.lru_cache(None)
    def fields(s, cname):
        """class name (unqualified) -> {member name: byte offset}"""
        for el in s._di().get(cname, []):
            out = {}
            for r in re.findall(r'!(\d+)', s.meta.get(el, '')):
                m = s.meta.get(r, '')
                if 'DW_TAG_member' in m and 'DIFlagStaticMember' not in m:
                    nm = re.search(r'name: "([^"]+)"', m)
                    of = re.search(r'offset: (\d+)', m)
                    if nm: out[nm.group(1)] = int(of.group(1)) // 8 if of else 0
            if out: return out
        return None
    def member_index(s, ty, cname, member):
        f = s.fields(cname)
        if not f or member not in f: raise IRError('member %s::%s not found' % (cname, member))
        offs = field_offsets(ty)
        return offs.index(f[member])

CLANG = ['clang++-18', '-std=gnu++14', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
         '-fignore-exceptions', '-ffp-contract=off', '-fno-threadsafe-statics', '-fstandalone-debug', '-Wno-everything', '-S', '-emit-llvm']
OPT = ['opt-18', '-passes=function(sroa<preserve-cfg>,simplifycfg,loop-simplify,lcssa)', '-S']

def build_ir(repo, srcs, workdir, incs=(), jobs=8):
    """compile each source file of /repo (relative path) to IR; returns {src: path}"""
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(workdir, exist_ok=True)
    inc = ['-I' + os.path.join(repo, 'libcgmf/include'), '-I' + os.path.join(repo, 'libcgmf'),
           '-I' + os.path.join(workdir, 'gen')] + ['-I' + i for i in incs]
    def one(src):
        base = re.sub(r'\W', '_', src)
        a, b = os.path.join(workdir, base + '.0.ll'), os.path.join(workdir, base + '.ll')
        full = src if os.path.isabs(src) else os.path.join(repo, src)
        r = subprocess.run(CLANG + (['-femit-all-decls'] if src.endswith('headers.cpp') else []) + inc + [full, '-o', a], capture_output=True, text=True)
        if r.returncode: raise IRError('clang failed on %s: %s' % (src, r.stderr[:2000]))
        r = subprocess.run(OPT + [a, '-o', b], capture_output=True, text=True)
        if r.returncode: raise IRError('opt failed on %s: %s' % (src, r.stderr[:2000]))
        os.remove(a)
        return src, b
    with ThreadPoolExecutor(jobs) as ex:
        return dict(ex.map(one, srcs))

def demangle(names):
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))

class Program:
    """all modules; functions are looked up across translation units"""
    def __init__(s, paths):
        s.mods = {src: Module(p, src) for src, p in paths.items()}
        names = sorted({n for m in s.mods.values() for n in m.ftext} | {n for m in s.mods.values() for n in m.decls})
        s.dem = demangle(names)
        s.where = {}
        for m in s.mods.values():
            for n in m.ftext:
                if n not in s.where: s.where[n] = m
    def find(s, qual, nparams=None, src=None):
        """function by qualified source name, e.g. 'FissionFragments::getInitialSpin'"""
        c = []
        for m in s.mods.values():
            if src and m.src != src: continue
            for n in m.ftext:
                d = s.dem.get(n, n)
                if d == qual or d.startswith(qual + '('):
                    f = m.func(n)
                    if nparams is None or len(f.params) == nparams: c.append(f)
        seen = {}
        for f in c: seen.setdefault(f.name if not f.header.startswith('define internal') else (f.mod.src, f.name), f)
        c = list(seen.values())
        if not c: raise IRError('function %s not found in the current tree' % qual)
        return c
    def find1(s, qual, **k):
        c = s.find(qual, **k)
        if len(c) != 1: raise IRError('function %s is ambiguous: %s' % (qual, [s.dem.get(f.name) for f in c]))
        return c[0]
    def resolve(s, mod, name):
        f = mod.func(name)
        if f: return f
        m = s.where.get(name)
        return m.func(name) if m else None
