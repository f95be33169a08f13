"""Contracts for the discrete level data (ripl2levels.cpp)"""
from contract import *
import grid, cascade
from grid import Dims
from cascade import Nuc, NNUC
from models import vec_cells
RIPL = 'libcgmf/src/ripl2levels.cpp'
NTAB = 3500                                     # MAX_NUCLEI, the length of the tables allocated by the reader
BS = z3.Function('branchSum', I, R)             # sum of the first j given branching ratios
NS = z3.Function('newBranchSum', I, R)          # sum of the first j normalised ones

class Normalize(Contract):
    """branching ratios of a level are normalised to one"""
    name = 'riplNormalizeBranch'; src = RIPL
    N = z3.Int('room')
    def make(s, ctx): return [z3.Int('ng'), ARR('pe', DBL, s.N), ARR('ic', DBL, s.N)]
    def old(s, ctx, a): st = State(ctx, Guard(), ctx.seq if not hasattr(s, 'q0') else s.q0); return lambda j: st.ld(a[1], j)
    def before(s, ctx, a):
        s.q0 = ctx.seq; P = s.old(ctx, a)
        ctx.rules['branchSum'] = lambda t: [z3.Implies(t.arg(0) <= 0, t == 0), z3.Implies(t.arg(0) > 0, t == BS(z3.simplify(t.arg(0) - 1)) + zr(P(z3.simplify(t.arg(0) - 1))))]
        ctx.rules[zr(P(z3.Int('zz'))).decl().name()] = lambda t: z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < a[0]), t >= 0)
    def pre(s, ctx, a, st): return [('there is room for the branches', band(cmp('ge', a[0], 0), cmp('ge', s.N, 1), cmp('ge', s.N, a[0])))]
    def frame(s, ctx, a): return [Loc(a[1], DBL, 'all'), Loc(a[2], DBL, 'all')]
    def hooks(s, ctx, a):
        def hk(ctx, g, fr, hd, L):
            k = zi(L.k); out = [('sum >= 0', BS(k) >= 0)]
            for n, v in L.reals(): out.append((n + ' adds up the branches', zr(v) == BS(k)))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        ng = a[0]; j = z3.Int('j'); inj = band(cmp('ge', j, 0), cmp('lt', j, ret))
        P = lambda x: old.ld(a[1], x); Q = lambda x: new.ld(a[1], x)
        S = BS(zi(ng)); none = cmp('eq', S, 0)
        want = ite(none, fdiv(Fraction(1), zr(ret)), fdiv(P(j), S))
        part = lambda x: ite(none, fdiv(zr(x), zr(ret)), fdiv(BS(zi(x)), S))
        j1 = add(j, 1)
        return [('a level has at least one branch', cmp('eq', ret, ite(cmp('ge', ng, 1), ng, ite(none, 1, ng)))),
                ('without branches one is opened', bimp(cmp('eq', ng, 0), cmp('eq', ret, 1))),
                ('branching ratios keep their proportions', bimp(inj, cmp('eq', Q(j), want))),
                ('branching ratios are not negative', bimp(inj, cmp('ge', Q(j), 0))),
                ('branching ratios add up to one (start of the induction)', bimp(band(cmp('eq', NS(0), 0), cmp('eq', BS(z3.IntVal(0)), 0)), cmp('eq', NS(0), part(0)))),
                ('branching ratios add up to one (step of the induction)', bimp(band(inj, cmp('eq', NS(j), part(j)), cmp('eq', NS(zi(j1)), add(NS(j), Q(j)))), cmp('eq', NS(zi(j1)), part(j1)))),
                ('branching ratios add up to one (conclusion)', bimp(cmp('eq', NS(zi(ret)), part(ret)), cmp('eq', NS(zi(ret)), Fraction(1)))),
                ('branches without probability are not converted', bimp(band(none, inj), cmp('eq', new.ld(a[2], j), 0))),
                ('conversion coefficients are kept', bimp(band(bnot(none), inj), cmp('eq', new.ld(a[2], j), old.ld(a[2], j))))]

class FixTransition(Contract):
    """transitions of a level without any in the file lead to lower levels"""
    name = 'riplFixTransition'; src = RIPL; opts = {'inst': ('q',)}
    NB = 61                                     # MAX_GAMMA_BRANCH
    def make(s, ctx): return [ARR('nf', I32, s.NB), ARR('pe', DBL, s.NB), ARR('ic', DBL, s.NB), z3.Int('k0'), Ptr(Region('lev', find_struct(ctx, 'Level'), z3.Int('nlev'), 'param'), (0,))]
    def pre(s, ctx, a, st): return [('the level exists', band(cmp('ge', a[3], 0), cmp('lt', a[3], z3.Int('nlev'))))]
    def frame(s, ctx, a): return [Loc(a[0], I32, 'all'), Loc(a[1], DBL, 'all'), Loc(a[2], DBL, 'all')]
    def e1(s, st, a, i):
        L = lambda x, m: st.ld(a[4], x, m, et=st.ctx.type_at(a[4]))
        d = sub(L(i, 'spin'), L(a[3], 'spin'))
        return band(cmp('ne', L(i, 'parity'), L(a[3], 'parity')), cmp('lt', d, 2), cmp('gt', d, -2), bnot(band(cmp('eq', L(i, 'spin'), 0), cmp('eq', L(a[3], 'spin'), 0))))
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq); q = z3.Int('q')
        def hk(ctx, g, fr, hd, L):
            out = []; st = State(ctx, g)
            for n, v in L.ints():
                inq = band(cmp('ge', q, 0), cmp('lt', q, v))
                out += [(n + ' room', zb(cmp('lt', v, s.NB - 1))), (n + ' counts', zb(band(cmp('ge', v, 0), cmp('le', v, L.k))))]
                t = st.ld(a[0], q, et=I32)
                out += [(n + ' states', zb(bimp(inq, band(cmp('ge', t, 0), cmp('lt', t, L.k))))), (n + ' E1', zb(bimp(inq, s.e1(old, a, t)))),
                        (n + ' pe', zb(bimp(inq, cmp('eq', st.ld(a[1], q), 1)))), (n + ' ic', zb(bimp(inq, cmp('eq', st.ld(a[2], q), 0)))),
                        (n + ' order', zb(bimp(band(inq, cmp('gt', q, 0)), cmp('lt', st.ld(a[0], sub(q, 1), et=I32), t))))]
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        q = z3.Int('q'); inq = band(cmp('ge', q, 0), cmp('lt', q, ret)); t = new.ld(a[0], q, et=I32); k = a[3]
        return [('the number of branches fits the tables', band(cmp('ge', ret, 0), cmp('lt', ret, s.NB))),
                ('the first excited level decays to the ground state', bimp(cmp('eq', k, 1), band(cmp('eq', ret, 1), cmp('eq', new.ld(a[0], 0, et=I32), 0)))),
                ('every branch leads to a lower level', bimp(inq, band(cmp('ge', t, 0), cmp('lt', t, k)))),
                ('every branch has a probability and is not converted', bimp(inq, band(cmp('eq', new.ld(a[1], q), 1), cmp('eq', new.ld(a[2], q), 0)))),
                ('several branches are all of type E1', bimp(band(inq, cmp('gt', ret, 1), cmp('ne', k, 1)), s.e1(old, a, t))),
                ('branches lead to different levels', bimp(band(inq, cmp('gt', q, 0)), cmp('lt', new.ld(a[0], sub(q, 1), et=I32), t)))]

class GroundState(Contract):
    """a nucleus without level data has its ground state only"""
    name = 'riplGSonly'; src = RIPL
    def make(s, ctx): return [z3.Int('z'), z3.Int('a'), Ptr(Region('lev', find_struct(ctx, 'Level'), z3.Int('nlev'), 'param'), (0,))]
    def pre(s, ctx, a, st): return [('the nucleus exists', band(cmp('ge', a[0], 0), cmp('ge', a[1], a[0]))), ('there is room for a level', cmp('ge', z3.Int('nlev'), 1))] if s.verifying else [('the nucleus exists', band(cmp('ge', a[0], 0), cmp('ge', a[1], a[0])))]
    def frame(s, ctx, a):
        st = s.entry(ctx); return [Loc(st.at(a[2], 'spin'), DBL), Loc(st.at(a[2], 'parity'), I32)]
    def post(s, ctx, a, old, new, ret): return gs_facts(a[0], a[1], lambda m: new.ld(a[2], m), ret)
def odd(x): return cmp('ne', z3.simplify(zi(x) % 2), 0)
def gs_facts(z, a, lev, nd):
    n = sub(a, z)
    ee, oo = band(bnot(odd(z)), bnot(odd(n))), band(odd(z), odd(n))
    return [('only the ground state is known', cmp('eq', nd, 1)), ('a ground state without data has spin 0 (even-even), 1 (odd-odd) or 1/2', cmp('eq', lev('spin'), ite(ee, Fraction(0), ite(oo, Fraction(1), Fraction(1, 2))))), ('a ground state without data has positive parity', cmp('eq', lev('parity'), 1))]

FI = z3.Function('firstEntry', I, I)            # index of the first entry of a nucleus in the level table (NTAB if there is none)
class Table:
    """the level data as read from the file"""
    def __init__(s, ctx, st):
        s.ctx, s.st = ctx, st
        g = lambda n: Ptr(ctx.gl(n, RIPL), (0,))
        s.zi = ctx.pointee(g('zaidIndex'), I32, NTAB); s.nl = ctx.pointee(g('numberLevels'), I32, NTAB)
        al = ctx.pointee(g('allLevels'), PTR, NTAB)
        s.al = ctx.pointee(Ptr(al.r, al.path), find_struct(ctx, 'Level'), lambda *p: s.count(p[-2]))
        s.alp = al
    def at(s, p, i): return Ptr(p.r, p.path[:-1] + (i,))
    def zaid(s, i): return s.st.ld(s.at(s.zi, i))
    def count(s, i): return s.st.ld(s.at(s.nl, i))
    def lev(s, i, k): p = s.st.ld(s.at(s.alp, i), ty=PTR); return Ptr(p.r, p.path[:-1] + (add(p.path[-1], k),))
FLD = ('energy', 'spin', 'parity', 'ngamma', 'halflife')
def vget(ctx, st, q, m, kind, *ix):
    p = st.at(q, m); sh, i = vec_cells(p, kind)
    if kind == '$n': return ctx.read(p.r, sh, i, INT(64), st.g, st.seq)
    return ctx.read(p.r, sh + ('*',), i + ix, I32 if m == 'fstate' else DBL, st.g, st.seq)
class GetLevels(Contract):
    """every nucleus of the chain gets the levels of its own entry of the table"""
    name = 'getDiscreteLevels'; nparams = 2; src = RIPL; bound = ('cc', 'ii', 'jj')
    opts = {'inst': ('cc',)}
    def make(s, ctx):
        n = Nuc(ctx, State(ctx, Guard(), ctx.seq)); Table(ctx, State(ctx, Guard(), ctx.seq))
        return [n.at(0), z3.Int('nemit')]
    def uses(s): return [GroundState()]
    def before(s, ctx, a):
        t = Table(ctx, State(ctx, Guard(), ctx.seq)); z = z3.Int('zz')
        ctx.rules['firstEntry'] = lambda f: [f >= 0, f <= NTAB, z3.Implies(f < NTAB, zi(t.zaid(f)) == f.arg(0))]
        e = zi(t.zaid(z)); pos = [i for i in range(e.num_args()) if e.arg(i).eq(z)][0]
        add_rule(ctx, e.decl().name(), lambda x: z3.Implies(z3.And(x.arg(pos) >= 0, x.arg(pos) < NTAB), FI(x) <= x.arg(pos)))
        e = zi(t.count(z)); pos2 = [i for i in range(e.num_args()) if e.arg(i).eq(z)][0]
        add_rule(ctx, e.decl().name(), lambda x: z3.Implies(z3.And(x.arg(pos2) >= 0, x.arg(pos2) < NTAB), z3.And(x >= 0, x <= zi(Dims(ctx).NLEV))))
    def pre(s, ctx, a, st):
        n = Nuc(ctx, st); out = Dims(ctx).pre() + [('the chain fits the array of nuclei', band(cmp('ge', a[1], 0), cmp('lt', a[1], NNUC)))]
        for c in range(NNUC): out.append(('the nuclei exist', bimp(cmp('le', c, a[1]), band(cmp('ge', n.v(c, 'za', 'Z'), 0), cmp('ge', n.v(c, 'za', 'A'), n.v(c, 'za', 'Z'))))))
        return out
    def frame(s, ctx, a):
        n = Nuc(ctx, s.entry(ctx)); p = n.at(0); st = n.st
        return [Loc(st.at(p, 'ndisc'), I32, 'any')] + [Vec(st.at(p, 'lev', 0, m), t) for m, t in (('fstate', I32), ('branch', DBL), ('gratio', DBL))] + [Loc(st.at(p, 'lev', 0), find_struct(ctx, 'Level'), 'any')]
    def facts(s, ctx, old, new):
        c, i, j = z3.Int('cc'), z3.Int('ii'), z3.Int('jj')
        n = Nuc(ctx, new); t = Table(ctx, old); o = Nuc(ctx, old)
        Z, A = o.v(c, 'za', 'Z'), o.v(c, 'za', 'A')
        f = FI(zi(add(mul(Z, 1000), A))); has = cmp('lt', f, NTAB)
        ini = band(has, cmp('ge', i, 0), cmp('lt', i, t.count(f)))
        out = [('a nucleus of the table has the number of levels of its entry', bimp(has, cmp('eq', n.v(c, 'ndisc'), t.count(f))))]
        src = t.lev(f, i); dst = new.at(n.at(c), 'lev', i)
        for m in FLD: out.append(('a level has the %s of its entry in the table' % m, bimp(ini, cmp('eq', n.v(c, 'lev', i, m), old.ld(src, m)))))
        for m in ('fstate', 'branch', 'gratio'):
            out.append(('a level has as many %s values as its entry in the table' % m, bimp(ini, cmp('eq', vget(ctx, new, dst, m, '$n'), vget(ctx, old, src, m, '$n')))))
            out.append(('a level has the %s values of its entry in the table' % m, bimp(ini, cmp('eq', vget(ctx, new, dst, m, '$v', j), vget(ctx, old, src, m, '$v', j)))))
        out += [(nm, bimp(bnot(has), x)) for nm, x in gs_facts(Z, A, lambda m: n.v(c, 'lev', 0, m), n.v(c, 'ndisc'))]
        return out
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); out = []; c = z3.Int('cc')
            if any('lev' in key[0].name for key, p in L.arrays):
                inc = band(cmp('ge', c, 0), cmp('lt', c, L.k))
                return [(nm, zb(bimp(inc, f))) for nm, f in s.facts(ctx, old, st)]
            if L.arrays: return []
            zs = []
            for v in fr.env.values():
                if is_z(v) and z3.is_int(v) and z3.is_add(v) and any('ncl' in x for x in symbols(v)) and not any(v.eq(y) for y in zs): zs.append(v)
            for n, v in L.ints():
                out += [(n + ' index', zb(band(cmp('ge', v, -1), cmp('lt', v, NTAB))))]
                for z in zs[:2]:
                    for d in (0, 1):
                        out.append(('%s not yet found %d' % (n, d), zb(cmp('ge', FI(z), add(v, d)))))
                        for m, b in L.ints():
                            if m == n: continue
                            out.append(('%s found if %s' % (n, m), zb(bimp(cmp('ne', b, 0), cmp('eq', FI(z), v)))))
                            out.append(('%s not found if not %s' % (n, m), zb(bimp(cmp('eq', b, 0), cmp('ge', FI(z), add(v, d))))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        c = z3.Int('cc'); inc = band(cmp('ge', c, 0), cmp('le', c, a[1]))
        return [(nm, bimp(inc, f)) for nm, f in s.facts(ctx, old, new)]

def ground_states(ctx, st):
    """invariant of the level tables of the nuclei, assumed when getDiscreteLevels is called: the first level is the ground state at energy zero
    (so the default constructor of Level, the reader and getDiscreteLevels leave it)"""
    n = Nuc(ctx, st)
    return [('the first level of a nucleus is its ground state', cmp('eq', n.v(c, 'lev', 0, 'energy'), 0)) for c in range(NNUC)]
TI, TL, TJ = z3.Int('ti'), z3.Int('tl'), z3.Int('tj')
def table_facts(ctx, st):
    """the level file as the reader leaves it, for entry ti, level tl, branch tj"""
    t = Table(ctx, st); lv = t.lev(TI, TL)
    ine = band(cmp('ge', TI, 0), cmp('lt', TI, NTAB), cmp('ne', t.zaid(TI), 0)); nl = t.count(TI); inl = band(ine, cmp('ge', TL, 0), cmp('lt', TL, nl))
    E = lambda i: st.ld(t.lev(TI, i), 'energy')
    out = [(nl, 'an entry has levels', bimp(ine, band(cmp('ge', nl, 1), cmp('le', nl, Dims(ctx).NLEV))))]
    out.append((E(TL), 'level energies lie between zero and that of the last level, the ground state is at zero', bimp(inl, band(cmp('ge', E(TL), 0), cmp('le', E(TL), E(sub(nl, 1))), bimp(cmp('eq', TL, 0), cmp('eq', E(TL), 0))))))
    sp = st.ld(lv, 'spin')
    out.append((sp, 'level spins are known', bimp(inl, band(cmp('ge', sp, 0), cmp('le', sp, 50)))))
    f = vget(ctx, st, lv, 'fstate', '$v', TJ); ng = st.ld(lv, 'ngamma')
    inj = band(inl, cmp('gt', TL, 0), cmp('ge', TJ, 0), cmp('lt', TJ, ng))
    out.append((f, 'a branch leads to a lower level', bimp(inj, band(cmp('ge', f, 0), cmp('lt', f, TL), cmp('le', E(f), E(TL))))))
    for m in ('fstate', 'branch', 'gratio'):
        z = vget(ctx, st, lv, m, '$n'); out.append((z, 'an entry per branch', bimp(band(inl, cmp('gt', TL, 0)), cmp('ge', z, ng))))
    return out
class Levels(GetLevels):
    """the level schemes used by a cascade, given a well-formed level file (see table_facts)"""
    def before(s, ctx, a):
        GetLevels.before(s, ctx, a)
        sv, cascade.BV[:] = list(cascade.BV), [TI, TL, TJ]
        try: cascade.fact_rules(ctx, table_facts(ctx, State(ctx, Guard(), ctx.seq)))
        finally: cascade.BV[:] = sv
    def pre(s, ctx, a, st):
        n = Nuc(ctx, st)
        return GetLevels.pre(s, ctx, a, st) + (ground_states(ctx, st) if s.verifying else []) + [('the nuclei are charged', bimp(cmp('le', c, a[1]), cmp('ge', n.v(c, 'za', 'Z'), 1))) for c in range(NNUC)]
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq); hk0 = GetLevels.hooks(s, ctx, a)[0]
        def hk(ctx, g, fr, hd, L):
            out = hk0(ctx, g, fr, hd, L)
            if any('lev' in key[0].name for key, p in L.arrays):
                out += [(x[0], x[1]) for x in s.goals(ctx, State(ctx, g), L.k)]
                c = z3.Int('cc'); n = Nuc(ctx, State(ctx, g))
                out.append(('ground states', zb(cmp('eq', n.v(c, 'lev', 0, 'energy'), 0))))
            return out
        return [hk]
    def goals(s, ctx, st, N):
        """level_facts and nuclei_ok for the nuclei before N"""
        c = z3.Int('cc'); out = []
        for t, nm, f in cascade.level_facts(ctx, st) + cascade.nuclei_ok(ctx, st):
            if nm in ('a neutron leads to the next nucleus of the chain', cascade.BRDEF): continue
            out.append((nm, z3.substitute(zb(f), (cascade.CE, zi(sub(N, 1))))))
        return out
    def post(s, ctx, a, old, new, ret):
        if not s.verifying:
            ctx.assume(cascade.CE == zi(a[1]))                     # the chain meant in the contracts of the cascade
            return [(nm, f) for t, nm, f in cascade.level_facts(ctx, new) + cascade.nuclei_ok(ctx, new) if nm != 'a neutron leads to the next nucleus of the chain']
        return [x for x in s.goals(ctx, new, add(a[1], 1))]
