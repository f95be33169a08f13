"""Contracts for the Hauser-Feshbach decay of a continuum state (specmain.cpp, gampop.cpp, parpop.cpp, stattrans.cpp)

Ghost state: $total is the sum of all entries of the population tables; every store to one of them adds what the entry gains.
Everything the transmission sums depend on (densities, bin widths, levels, transmission coefficients) is left unchanged by every
function here (frames), so that the abstract sums below have one meaning throughout the decay of a state."""
from contract import *
import grid, cascade
from grid import Dims, NUCLEUS
from cascade import Nuc, IN, toint
from driver import ghost
SUMALL, HAUSER = 0, 1
GAM, PAR, SPM, STT = ('libcgmf/src/%s.cpp' % x for x in ('gampop', 'parpop', 'specmain', 'stattrans'))
PS = z3.Function('densitySum', I, I, I, R)            # densitySum(k,p,m): sum of density*binwidth of bin k, parity p, over the first m spins
FC = z3.Function('gammaToBin', I, I, I, I, R, R)      # gammaToBin(k,p,2J,l,T): transmission to the states of bin k with parity p by multipole l
def shape_of(p): return tuple('*' if not isinstance(x, tuple) else x[1] for x in p.path)
def total(ctx): return ghost(ctx, 'total', DBL)
def watch(ctx, ps, rule=None):
    """every store to a population table is accounted for"""
    st = State(ctx, Guard(), ctx.seq); keys = {}
    for p in ps:
        for m in ('even', 'odd'):
            q = st.at(p, 'pop', 0, 0, m); keys[(q.r, shape_of(q))] = (p, m)
        q = st.at(p, 'lpop', 0); keys[(q.r, shape_of(q))] = (p, 'lpop')
    def mon(ctx, r, shape, idx, lt, v, g):
        hit = keys.get((r, shape))
        if hit is None: return
        old = ctx.read(r, shape, idx, lt, g)
        d = sub(v, old)
        if rule is not None: rule(ctx, hit[0], hit[1], idx, d, g)
        t = total(ctx)
        ctx.wr(t.r, ('*',), Write(0, g, (0,), add(ctx.load(t, DBL, g), d), line=ctx.line))
    ctx.monitors.append(mon)
def odd(st, p):
    """the spins of the nucleus are half-integer"""
    x = st.ld(p, 'lev', 0, 'spin')
    return cmp('eq', srem(st.ctx.cast('fptosi', DBL, add(mul(x, 2), Fraction(1, 1000)), I32), 2), 1)
def half(st, p):
    """twice the spin of the first spin index: 0 for integer, 1 for half-integer spins"""
    k = getattr(st.ctx, 'odd', {}).get(p.r)
    return k if k is not None else ite(odd(st, p), 1, 0)
def amax(a, b): return ite(cmp('ge', a, b), a, b)
def amin(a, b): return ite(cmp('le', a, b), a, b)
def iabs(a): return ite(cmp('ge', a, 0), a, sub(0, a))
def half_div(x):
    y = exact_div(simp(x), 2)
    return y if y is not None else unz(zi(x) / 2)
def jspace(ctx, st, p, j, i0):
    return [('the spin is one of the table', band(cmp('ge', j, i0), cmp('lt', j, add(mul(Dims(ctx).MJ, 2), i0)), cmp('eq', unz((zi(sub(j, i0))) % 2), 0)))]
def psum_rules(ctx, p, seq):
    st = State(ctx, Guard(), seq)
    def rule(t):
        k, par, m = t.arg(0), t.arg(1), t.arg(2); x = z3.simplify(m - 1)
        e, o = (zr(st.ld(p, 'density', k, x, w)) * zr(st.ld(p, 'binwidth', k)) for w in ('even', 'odd'))
        return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == PS(k, par, x) + z3.If(par == 1, e, o))]
    ctx.rules['densitySum'] = rule
def range_sum(k, par, i0, lo, hi):
    """sum over twice the spins lo, lo+2, .. hi"""
    a, b = zi(half_div(sub(lo, i0))), zi(half_div(sub(hi, i0)))
    return z3.If(zi(hi) >= zi(lo), PS(zi(k), zi(par), b + 1) - PS(zi(k), zi(par), a), z3.RealVal(0))
def positive(ctx, p, seq):
    """level densities and bin widths are not negative"""
    st = State(ctx, Guard(), seq)
    for m in ('even', 'odd'):
        t = zr(st.ld(p, 'density', z3.Int('kk'), z3.Int('jj'), m)); add_rule(ctx, t.decl().name(), lambda t: t >= 0)
    t = zr(st.ld(p, 'binwidth', z3.Int('kk'))); add_rule(ctx, t.decl().name(), lambda t: t >= 0)
    old = ctx.rules['densitySum']
    def rule(t):           # a sum of non-negative terms does not decrease (the terms are added one by one by the rule above)
        return old(t) + [t >= 0]
    ctx.rules['densitySum'] = rule

class Tc2c(Contract):
    """photons to the states of one continuum bin"""
    name = 'specTc2c'; src = GAM; mode = None
    def make(s, ctx):
        s.n = NUCLEUS(ctx)
        return [s.mode, z3.Int('pg'), z3.Int('k'), z3.Int('p0'), z3.Int('j0'), z3.Int('l'), z3.Real('tg'), z3.Real('q'), s.n]
    def pre(s, ctx, a, st):
        mode, pg, k, p0, j0, l, tg, q, n = a; d = Dims(ctx)
        sg = lambda x: bor(cmp('eq', x, 1), cmp('eq', x, -1))
        jm = st.ld(n, 'jmax')
        return d.pre() + jspace(ctx, st, n, j0, half(st, n)) + [('the bin exists', band(cmp('ge', k, 0), cmp('lt', k, d.NB))), ('parities', band(sg(pg), sg(p0))), ('transmission coefficients and populations are not negative', band(cmp('ge', tg, 0), cmp('ge', q, 0))), ('multipolarity', band(cmp('ge', l, 1), cmp('le', l, 2))),
                ('the spin limit lies within the table', band(cmp('ge', jm, 0), cmp('lt', jm, d.MJ)))]
    def frame(s, ctx, a):
        st = s.entry(ctx); out = [Loc(st.at(a[8], 'jmax'), I32)]
        if a[0] != SUMALL: out += [Loc(st.at(a[8], 'pop', a[2], 0), find_struct(ctx, 'Parity'), 'all'), Loc(total(ctx), DBL)]
        return out
    def lims(s, ctx, a, st):
        j0, l = a[4], a[5]
        lo = iabs(sub(j0, mul(2, l))); hi = amin(add(j0, mul(2, l)), sub(mul(Dims(ctx).MJ, 2), 1))
        return lo, hi
    def value(s, ctx, a): return FC(zi(a[2]), zi(mul(a[1], a[3])), zi(a[4]), zi(a[5]), zr(a[6]))
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq)
        mode, pg, k, p0, j0, l, tg, q, n = a
        psum_rules(ctx, n, ctx.seq); positive(ctx, n, ctx.seq)
        lo, hi = s.lims(ctx, a, st); i0 = half(st, n)
        ctx.assume(cmp('eq', s.value(ctx, a), mul(tg, range_sum(k, mul(pg, p0), i0, lo, hi))))
        def rule(ctx, p, m, idx, d, g):
            if m == 'lpop': ctx.oblige('a transition to the continuum does not populate levels', False, g, 'mon'); return
            kk, jj = idx[-2], idx[-1]; J = add(mul(jj, 2), i0)
            want = mul(mul(q, tg), mul(st.ld(n, 'density', k, jj, m), st.ld(n, 'binwidth', k)))
            ctx.oblige('a photon leads to the bin it is meant for', cmp('eq', kk, k), g, 'mon')
            ctx.oblige('a photon carries at most its multipolarity', band(cmp('le', J, add(j0, mul(2, l))), cmp('ge', J, iabs(sub(j0, mul(2, l)))), cmp('ge', add(J, j0), mul(2, l))), g, 'mon')
            ctx.oblige('a photon changes parity according to its kind', cmp('eq', mul(pg, p0), 1 if m == 'even' else -1), g, 'mon')
            ctx.oblige('no population is lost', cmp('ge', d, 0), g, 'mon')
            ctx.oblige('the population gained is proportional to transmission and density', cmp('eq', d, want), g, 'mon')
        watch(ctx, [n], rule)
        s.t0 = ctx.load(total(ctx), DBL, Guard())
    def qq(s, a): return a[7] if a[0] == HAUSER else Fraction(1)
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        mode, pg, k, p0, j0, l, tg, q, n = a
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); lo, hi = s.lims(ctx, a, old); i0 = half(old, n); out = []
            a_ = zi(half_div(sub(lo, i0))); p = zi(mul(pg, p0))
            out.append(('partial sums', PS(zi(k), p, a_ + zi(L.k)) >= PS(zi(k), p, a_)))
            acc = zr(tg) * (PS(zi(k), p, a_ + zi(L.k)) - PS(zi(k), p, a_))
            for m, v in L.reals():
                out.append((m + ' sum of transmissions', zr(v) == zr(s.qq(a)) * acc))
            out.append(('total', zb(cmp('eq', st.ld(total(ctx)), add(old.ld(total(ctx)), mul(zr(a[7] if mode == HAUSER else 0), acc))))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        n = a[8]; jm = new.ld(n, 'jmax'); d = Dims(ctx)
        out = [('the value returned is the sum of the transmissions', cmp('eq', ret, mul(s.qq(a), s.value(ctx, a)))),
               ('the spin limit stays within the table', band(cmp('ge', jm, old.ld(n, 'jmax')), cmp('lt', jm, d.MJ)))]
        if a[0] == SUMALL or not s.verifying: out.append(('the sum of the transmissions is not negative', cmp('ge', s.value(ctx, a), 0)))
        t0, t1 = old.ld(total(ctx)), new.ld(total(ctx))
        if a[0] == HAUSER: out.append(('the population gained is the value returned', cmp('eq', t1, add(t0, ret))))
        elif s.verifying: out.append(('summing does not change the population', cmp('eq', t1, t0)))
        return out
class Tc2cSum(Tc2c): mode = SUMALL
class Tc2cPop(Tc2c): mode = HAUSER

TD = z3.Function('gammaToLevel', I, I, I, I, I, R, R)      # gammaToLevel(parity change,i,p0,2J,l,T)
class Tc2d(Contract):
    """photons to a discrete level"""
    name = 'specTc2d'; src = GAM; mode = None
    def make(s, ctx): return [s.mode, z3.Int('pg'), z3.Int('i'), z3.Int('p0'), z3.Int('j0'), z3.Int('l'), z3.Real('tg'), z3.Real('q'), NUCLEUS(ctx)]
    def pre(s, ctx, a, st):
        mode, pg, i, p0, j0, l, tg, q, n = a; d = Dims(ctx)
        return [('the level exists', band(cmp('ge', i, 0), cmp('lt', i, d.NLEV))), ('the spin of the level is known', cmp('ge', st.ld(n, 'lev', i, 'spin'), 0)), ('the spin is not negative', cmp('ge', j0, 0)), ('multipolarity', cmp('ge', l, 1)),
                ('transmission coefficients and populations are not negative', band(cmp('ge', tg, 0), cmp('ge', q, 0)))]
    def frame(s, ctx, a):
        if a[0] == SUMALL: return []
        return [Loc(s.entry(ctx).at(a[8], 'lpop', a[2]), DBL), Loc(total(ctx), DBL)]
    def allowed(s, a, st):
        mode, pg, i, p0, j0, l, tg, q, n = a
        sp = mul(st.ld(n, 'lev', i, 'spin'), 2); J, L = zr(j0), zr(mul(2, l))
        return band(cmp('le', sp, J + L), cmp('ge', sp, J - L), cmp('ge', sp, L - J), cmp('eq', pg, mul(p0, st.ld(n, 'lev', i, 'parity'))))
    def value(s, a): return TD(*[zi(x) for x in a[1:6]], zr(a[6]))
    def qq(s, a): return a[7] if a[0] == HAUSER else Fraction(1)
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq)
        mode, pg, i, p0, j0, l, tg, q, n = a
        ctx.assume(cmp('eq', s.value(a), ite(s.allowed(a, st), tg, Fraction(0))))
        def rule(ctx, p, m, idx, d, g):
            ctx.oblige('a transition to a level populates that level', m == 'lpop' and cmp('eq', idx[-1], i), g, 'mon')
            ctx.oblige('a photon obeys the selection rules of its kind', s.allowed(a, st), g, 'mon')
            ctx.oblige('no population is lost', cmp('ge', d, 0), g, 'mon')
            ctx.oblige('the population gained is proportional to the transmission', cmp('eq', d, mul(q, tg)), g, 'mon')
        watch(ctx, [n], rule)
    def post(s, ctx, a, old, new, ret):
        out = [('the value returned is the transmission', cmp('eq', ret, mul(s.qq(a), s.value(a)))), ('the transmission is not negative', cmp('ge', s.value(a), 0))]
        t0, t1 = old.ld(total(ctx)), new.ld(total(ctx))
        if a[0] == HAUSER: out.append(('the population gained is the value returned', cmp('eq', t1, add(t0, ret))))
        elif s.verifying: out.append(('summing does not change the population', cmp('eq', t1, t0)))
        return out
class Tc2dSum(Tc2d): mode = SUMALL
class Tc2dPop(Tc2d): mode = HAUSER

GT = z3.Function('gammaTransmission', I, I, R, I, R, R, R)
LA = z3.Function('densityParameter', R, R, R)
class GammaTransT(Contract):
    """gamma-ray transmission: a function of its arguments and of the giant resonance parameters, not negative for positive photon energies"""
    name = 'gdrGammaTransmission'; trusted = True
    def value(s, a): return GT(zi(a[0]), zi(a[1]), zr(a[2]), zi(a[3]), zr(a[4]), zr(a[5]))
    def post(s, ctx, a, old, new, ret): return [('value', cmp('eq', ret, s.value(a))), ('not negative', bimp(cmp('gt', a[2], 0), cmp('ge', ret, 0)))]
class DensParT(Contract):
    """level density parameter: a function of energy, mass and the parameters of the nucleus"""
    name = 'ldDensityParameter'; trusted = True
    def post(s, ctx, a, old, new, ret): return [('value', cmp('eq', ret, LA(zr(a[0]), zr(a[1]))))]
class FindBin(Contract):
    name = 'specFindEnergyBin'; src = SPM
    def make(s, ctx): return [z3.Real('e'), z3.Real('de')]
    def pre(s, ctx, a, st): return Dims(ctx).pre() + [('bin width', cmp('gt', a[1], 0))]
    def post(s, ctx, a, old, new, ret):
        NB = Dims(ctx).NB
        return [('the index lies within the spectrum for energies below the last bin', band(cmp('ge', ret, -1), bimp(cmp('le', a[0], mul(sub(NB, 1), a[1])), cmp('lt', ret, NB)))),
                ('energies from zero on have a bin', bimp(band(cmp('ge', a[0], 0), cmp('le', a[0], mul(sub(NB, 1), a[1])), cmp('le', a[1], 1)), cmp('ge', ret, 0))),
                ('the bin is the one nearest to the energy', bimp(band(cmp('ge', ret, 1)), band(cmp('le', mul(sub(ret, Fraction(1, 2)), a[1]), add(a[0], Fraction(1, 10000))), cmp('lt', a[0], mul(add(ret, Fraction(1, 2)), a[1])))))]

GS = z3.Function('gammaToBins', I, I, I, I, R)          # gammaToBins(k0,p,2J,m): transmission to the first m bins below bin k0
GD = z3.Function('gammaToLevels', I, I, I, I, R)        # gammaToLevels(k0,p,2J,m): .. to the first m levels
GA = z3.Function('gammaSum', I, I, I, R)                # gammaSum(k0,p,2J): all photons
E1, M1, E2 = 0, 1, 2
class Gamma(Contract):
    """all photons of a continuum state"""
    name = 'specTransitionGamma'; src = GAM; mode = None; bound = ('kk', 'jj'); opts = {'inst': ('kk', 'jj')}
    def make(s, ctx):
        d = Dims(ctx); r = Region('tg', PTR, 3, 'param'); ctx.pointee(Ptr(r, (0,)), DBL, d.NB)
        return [s.mode, z3.Int('k0'), z3.Int('p0'), z3.Int('j0'), Ptr(r, (0,)), z3.Real('q'), NUCLEUS(ctx), ARR('spc', DBL, d.NB)]
    def uses(s): return [Tc2c(), Tc2d(), GammaTransT(), DensParT(), FindBin()]
    def pre(s, ctx, a, st):
        mode, k0, p0, j0, tg, q, n, spc = a; d = Dims(ctx); jm = st.ld(n, 'jmax')
        kk = z3.Int('kk')
        return d.pre() + jspace(ctx, st, n, j0, half(st, n)) + [('the bin exists', band(cmp('ge', k0, 0), cmp('lt', k0, d.NB))), ('parity', bor(cmp('eq', p0, 1), cmp('eq', p0, -1))), ('the population is not negative', cmp('ge', q, 0)), ('the spin limit lies within the table', band(cmp('ge', jm, 0), cmp('lt', jm, d.MJ))),
                ('the numbers of bins and levels fit the tables', band(cmp('le', st.ld(n, 'ncont'), d.NB), cmp('ge', st.ld(n, 'ndisc'), 0), cmp('le', st.ld(n, 'ndisc'), d.NLEV))), ('the bin width is set', cmp('gt', st.ld(n, 'de'), 0)), ('the energy lies within the grid', cmp('le', st.ld(n, 'excitation', k0), mul(sub(d.NB, 1), st.ld(n, 'de'))))] + cascade.universal_pre(s, s.facts(ctx, a, st))
    def facts(s, ctx, a, st):
        """for arbitrary bin kk and level ii"""
        mode, k0, p0, j0, tg, q, n, spc = a; k, i = z3.Int('kk'), z3.Int('ii'); out = []
        for m in range(3):
            t = st.ld(tg, m, k, et=PTR); out.append((t, 'transmissions to the continuum are not negative', bimp(band(cmp('gt', k, k0), cmp('lt', k, st.ld(n, 'ncont'))), cmp('ge', t, 0))))
        ini = band(cmp('ge', i, 0), cmp('lt', i, st.ld(n, 'ndisc')))
        e = st.ld(n, 'lev', i, 'energy'); out.append((e, 'levels lie below the continuum', bimp(ini, band(cmp('ge', e, 0), cmp('lt', e, st.ld(n, 'excitation', k0))))))
        sp = st.ld(n, 'lev', i, 'spin'); out.append((sp, 'level spins are known', bimp(ini, cmp('ge', sp, 0))))
        return out
    def frame(s, ctx, a):
        st = s.entry(ctx); n = a[6]; out = [Loc(st.at(n, 'jmax'), I32)]
        if a[0] == HAUSER: out += [Loc(st.at(n, 'pop', 0, 0), find_struct(ctx, 'Parity'), 'rows'), Loc(st.at(n, 'lpop', 0), DBL, 'all'), Loc(total(ctx), DBL), Loc(a[7], DBL, 'all')]
        return out
    def term(s, st, a, k):
        mode, k0, p0, j0, tg, q, n, spc = a
        T = lambda m: zr(st.ld(tg, m, k, et=PTR)); j = zi(j0); p = zi(p0)
        return FC(k, -p, j, 1, T(E1)) + FC(k, p, j, 1, T(M1)) + FC(k, p, j, 2, T(E2))
    def dterm(s, st, a, i):
        mode, k0, p0, j0, tg, q, n, spc = a
        e = st.ld(n, 'lev', i, 'energy'); eg = zr(sub(st.ld(n, 'excitation', k0), e)); j = zi(j0); p = zi(p0)
        la = LA(zr(e), z3.ToReal(zi(st.ld(n, 'za', 'A')))); z = z3.RealVal(0); c = lambda x: z3.IntVal(x)
        return TD(c(-1), i, p, j, c(1), GT(c(1), c(1), eg, c(E1), la, zr(e))) + TD(c(1), i, p, j, c(1), GT(c(0), c(1), eg, c(M1), z, z)) + TD(c(1), i, p, j, c(2), GT(c(0), c(2), eg, c(E2), z, z))
    def before(s, ctx, a):
        mode, k0, p0, j0, tg, q, n, spc = a
        st = State(ctx, Guard(), ctx.seq)
        cascade.BV.extend(x for x in (z3.Int('kk'),) if not any(x.eq(y) for y in cascade.BV))
        cascade.fact_rules(ctx, s.facts(ctx, a, st))
        def r1(t):
            m = t.arg(3); x = z3.simplify(m - 1)
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == GS(t.arg(0), t.arg(1), t.arg(2), x) + s.term(st, a, z3.simplify(zi(k0) + 1 + x)))]
        def r2(t):
            m = t.arg(3); x = z3.simplify(m - 1)
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == GD(t.arg(0), t.arg(1), t.arg(2), x) + s.dterm(st, a, x))]
        ctx.rules['gammaToBins'] = r1; ctx.rules['gammaToLevels'] = r2
        A = (zi(k0), zi(p0), zi(j0)); nb = zi(st.ld(n, 'ncont')) - zi(k0) - 1
        ctx.assume(GA(*A) == GS(*A, nb) + GD(*A, zi(st.ld(n, 'ndisc'))))
        watch(ctx, [n], None)
    def qq(s, a): return a[5] if a[0] == HAUSER else Fraction(1)
    def same(s, ctx, a, old, new):
        """bins not below k0 keep their population"""
        k, j = z3.Int('kk'), z3.Int('jj'); d = Dims(ctx)
        return bimp(cmp('le', k, a[1]), band(*[cmp('eq', new.ld(a[6], 'pop', k, j, m), old.ld(a[6], 'pop', k, j, m)) for m in ('even', 'odd')]))
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq); mode, k0, p0, j0, tg, q, n, spc = a
        A = (zi(k0), zi(p0), zi(j0))
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); out = []; k = zi(L.k)
            nb = zi(old.ld(n, 'ncont')) - zi(k0) - 1
            accs = [GS(*A, k), GS(*A, nb) + GD(*A, k), GD(*A, k)]
            Q = zr(s.qq(a))
            for i, acc in enumerate(accs):
                for m, v in L.reals(): out.append((m + ' sum of transmissions %d' % i, zr(v) == Q * acc))
                out.append(('not negative %d' % i, acc >= 0))
                if mode == HAUSER: out.append(('total %d' % i, zb(cmp('eq', st.ld(total(ctx)), add(old.ld(total(ctx)), Q * acc)))))
            jm = st.ld(n, 'jmax'); out.append(('spin limit', zb(band(cmp('ge', jm, 0), cmp('lt', jm, Dims(ctx).MJ)))))
            if mode == HAUSER: out.append(('bins above', zb(s.same(ctx, a, old, st))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        n = a[6]; jm = new.ld(n, 'jmax'); d = Dims(ctx); A = (zi(a[1]), zi(a[2]), zi(a[3]))
        out = [('the value returned is the sum of the transmissions', cmp('eq', ret, mul(s.qq(a), GA(*A)))),
               ('the spin limit stays within the table', band(cmp('ge', jm, 0), cmp('lt', jm, d.MJ)))]
        if a[0] == SUMALL or not s.verifying: out.append(('the sum of the transmissions is not negative', cmp('ge', GA(*A), 0)))
        t0, t1 = old.ld(total(ctx)), new.ld(total(ctx))
        if a[0] == HAUSER: out += [('the population gained is the value returned', cmp('eq', t1, add(t0, ret))), ('photons lead to lower bins only', s.same(ctx, a, old, new))]
        elif s.verifying: out.append(('summing does not change the population', cmp('eq', t1, t0)))
        return out
class GammaSum(Gamma): mode = SUMALL
class GammaPop(Gamma): mode = HAUSER

# ------------------------------------------------------------------ neutrons
NC = z3.Function('neutronToBin', I, I, I, I, R)         # neutronToBin(k,p,2J,m): transmission to the states of bin k, partial waves below m
ND = z3.Function('neutronToLevel', I, I, I, I, R)
QW = z3.Function('qNeutronWave', I, I, I, R); QNC = z3.Function('qNeutronToBin', I, R)
NCA = z3.Function('neutronToBinAll', I, I, I, R)
NDA = z3.Function('neutronToLevelAll', I, I, I, R)
def Tran(ctx, p):
    ctx.pointee(State(ctx, Guard()).at(p, 'tran'), DBL, mul(Dims(ctx).MJ, 3)); return p
def two_nuclei(ctx):
    n0, n1 = NUCLEUS(ctx, 'n0'), NUCLEUS(ctx, 'n1')
    ctx.store(State(ctx, Guard()).at(n0, 'cdt', 1, 'spin2'), 1, I32, Guard())
    return n0, n1
def spin_half(st, n0): return [('the neutron has spin 1/2', cmp('eq', st.ld(n0, 'cdt', 1, 'spin2'), 1))]
def waves(ctx, st, p):
    l = st.ld(p, 'lmax')
    return [('the partial waves fit the table', cmp('lt', l, Dims(ctx).MJ))]
def tran_pos(ctx, st, p):
    t = zr(st.ld(p, 'tran', z3.Int('ii')))
    return t
def partial_waves(L):
    """the counters of the enclosing loops that may hold the orbital angular momentum (or twice that)"""
    out = []
    for n in sorted(L.outer):
        v = L.env.get(n)
        if not (is_z(v) and z3.is_int(v)): continue
        l = exact_div(simp(v), 2)
        if l is None and not (z3.is_const(v) and v.decl().name().startswith('k')): continue
        for up in (True, False): out.append(('%s %s' % (n, up), v if l is None else l, up))
    return out
def wave_candidates(ctx):
    """values of the integer variables in scope that may be the orbital angular momentum (or twice that)"""
    out = {}
    for fr in ctx.frames:
        for n, v in fr.env.items():
            if not (is_z(v) and z3.is_int(v)): continue
            v = simp(v)
            if not any(x.startswith('k!') for x in symbols(v)) or len(v.sexpr()) > 60: continue
            for l in (v, exact_div(v, 2)):
                if l is not None: out[zi(l).sexpr()] = zi(l)
    return [out[x] for x in sorted(out)]
class Cont(Contract):
    """neutrons to the states of one continuum bin of the daughter"""
    name = 'specTransitionParticleCont'; src = PAR; mode = None; opts = {'steps': True}
    def make(s, ctx):
        n0, n1 = two_nuclei(ctx)
        ctx.odd = {n1.r: s.odd}
        return [s.mode, z3.Int('k1'), z3.Int('pcn'), add(mul(2, z3.Int('jc')), 1 - s.odd), Tran(ctx, OBJ(ctx, 'Transmission', 'tc')), z3.Real('q'), n0, n1]
    def pre(s, ctx, a, st):
        mode, k1, pcn, jcn, tc, q, n0, n1 = a; d = Dims(ctx); jm = st.ld(n1, 'jmax')
        i1 = half(st, n1)
        return d.pre() + spin_half(st, n0) + waves(ctx, st, tc) + [('the bin exists', band(cmp('ge', k1, 0), cmp('lt', k1, d.NB))), ('parity', bor(cmp('eq', pcn, 1), cmp('eq', pcn, -1))), ('the population is not negative', cmp('ge', q, 0)),
              ('the spin differs from those of the daughter by a half', band(cmp('ge', jcn, 0), cmp('eq', unz((zi(add(jcn, i1))) % 2), 1))), ('the spin limit lies within the table', band(cmp('ge', jm, 0), cmp('lt', jm, d.MJ)))] + cascade.universal_pre(s, s.facts(ctx, a, st))
    def facts(s, ctx, a, st):
        t = st.ld(a[4], 'tran', z3.Int('ii')); return [(t, 'transmission coefficients are not negative', bimp(band(cmp('ge', z3.Int('ii'), 0), cmp('lt', z3.Int('ii'), mul(add(st.ld(a[4], 'lmax'), 1), 3))), cmp('ge', t, 0)))]
    def frame(s, ctx, a):
        st = s.entry(ctx); out = [Loc(st.at(a[7], 'jmax'), I32)]
        if a[0] != SUMALL: out += [Loc(st.at(a[7], 'pop', a[1], 0), find_struct(ctx, 'Parity'), 'all'), Loc(total(ctx), DBL)]
        return out
    def pl(s, l): return z3.If(l % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
    def inner(s, ctx, a, st, l, up):
        """(first spin, last spin, coefficient) of partial wave l coupled to l+1/2 (up) or l-1/2"""
        mode, k1, pcn, jcn, tc, q, n0, n1 = a
        jp = add(mul(2, l), 1 if up else -1)
        lo = iabs(sub(jcn, jp)); hi = amin(add(jcn, jp), mul(sub(Dims(ctx).MJ, 1), 2))
        return lo, hi, zr(st.ld(tc, 'tran', add(mul(l, 3), 0 if up else 1)))
    def part(s, ctx, a, st, l, up):
        """QW summed over the spins that partial wave l, coupled to l+1/2 or l-1/2, leads to (the last spin has the parity of the first one)"""
        lo, hi, T = s.inner(ctx, a, st, l, up)
        i1 = half(st, a[7]); u = z3.IntVal(int(up))
        x, y = zi(half_div(sub(lo, i1))), zi(half_div(sub(hi, i1)))
        v = z3.If(zi(hi) >= zi(lo), QW(zi(l), u, y + 1) - QW(zi(l), u, x), z3.RealVal(0))
        return v if up else z3.If(zi(l) >= 1, v, z3.RealVal(0))
    def value(s, ctx, a, st=None): return NCA(zi(a[1]), zi(a[2]), zi(a[3]))
    def qq(s, a): return a[5] if a[0] == HAUSER else Fraction(1)
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq); mode, k1, pcn, jcn, tc, q, n0, n1 = a
        psum_rules(ctx, n1, ctx.seq); positive(ctx, n1, ctx.seq)
        cascade.fact_rules(ctx, s.facts(ctx, a, st))
        # QW := q T_l densitySum, QNC := q neutronToBin (q = 1 in a sum): the recursions below follow from those definitions and that of densitySum
        def r(t):
            m = t.arg(0); x = z3.simplify(m - 1)
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == QNC(x) + s.part(ctx, a, st, x, True) + s.part(ctx, a, st, x, False))]
        ctx.rules['qNeutronToBin'] = r
        Q = zr(s.qq(a))
        def w(t):
            l, u, m = t.arg(0), t.arg(1), t.arg(2); x = z3.simplify(m - 1); par = s.pl(l) * zi(pcn)
            T = zr(st.ld(tc, 'tran', simp(3 * l + 1 - u)))
            e, o = (T * (zr(st.ld(n1, 'density', k1, x, v)) * zr(st.ld(n1, 'binwidth', k1))) for v in ('even', 'odd'))
            return [z3.Implies(m <= 0, t == 0), z3.Implies(z3.And(m > 0, par == 1), t == QW(l, u, x) + Q * e), z3.Implies(z3.And(m > 0, par != 1), t == QW(l, u, x) + Q * o)]
        ctx.rules['qNeutronWave'] = w
        ctx.assume(Q * s.value(ctx, a) == QNC(zi(st.ld(tc, 'lmax')) + 1))
        i1 = half(st, n1)
        def rule(ctx, p, m, idx, d, g):
            if m == 'lpop': ctx.oblige('a transition to the continuum does not populate levels', False, g, 'mon'); return
            ctx.oblige('a neutron leads to the bin it is meant for', cmp('eq', idx[-2], k1), g, 'mon')
            ctx.oblige('a neutron populates the daughter', p.r is n1.r, g, 'mon')
            ctx.oblige('no population is lost', cmp('ge', d, 0), g, 'mon')
            jj = idx[-1]; J = zi(add(mul(jj, 2), i1)); jc = zi(jcn); alts = []
            w = mul(st.ld(n1, 'density', k1, jj, m), st.ld(n1, 'binwidth', k1))
            for l in wave_candidates(ctx):
                for up in (1, 0):
                    jp = 2 * l + (1 if up else -1)
                    alts.append(z3.And(l >= 0, jp >= 0, J <= jc + jp, J >= jc - jp, J >= jp - jc, s.pl(l) * zi(pcn) == (1 if m == 'even' else -1), zr(d) == zr(q) * (zr(st.ld(tc, 'tran', simp(3 * l + 1 - up))) * zr(w))))
            ctx.oblige('the population gained is that of a partial wave that couples the spins and parities', z3.Or(*alts) if alts else False, g, 'mon')
        watch(ctx, [n0, n1], rule)
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq); mode, k1, pcn, jcn, tc, q, n0, n1 = a
        A = (zi(k1), zi(pcn), zi(jcn))
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); out = []; k = zi(L.k); Q = zr(s.qq(a)); i1 = half(old, n1)
            st0 = State(ctx, L.g0, L.seq0)
            for nm, l, up in partial_waves(L):
                lo, hi, T = s.inner(ctx, a, old, l, up); u = z3.IntVal(int(up)); x = zi(half_div(sub(lo, i1)))
                acc = QW(zi(l), u, x + k) - QW(zi(l), u, x)
                for m, v in L.reals(): out.append((m + ' sum of ' + nm, zr(v) == zr(L.init[m]) + acc))
                if mode == HAUSER: out.append(('total of ' + nm, zb(cmp('eq', st.ld(total(ctx)), add(st0.ld(total(ctx)), acc)))))
                else: out.append(('partial sums of ' + nm, acc >= 0))
            jm = st.ld(n1, 'jmax'); out.append(('spin limit', zb(band(cmp('ge', jm, 0), cmp('lt', jm, Dims(ctx).MJ)))))
            for m, v in L.ints(): out.append((m + ' top', zb(band(cmp('ge', v, 0), cmp('le', v, mul(sub(Dims(ctx).MJ, 1), 2))))))
            if mode == SUMALL: out.append(('not negative', QNC(k) >= 0))
            for m, v in L.reals(): out.append((m + ' sum', zr(v) == QNC(k)))
            if mode == HAUSER: out.append(('total', zb(cmp('eq', st.ld(total(ctx)), add(old.ld(total(ctx)), QNC(k))))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        n1 = a[7]; jm = new.ld(n1, 'jmax'); d = Dims(ctx)
        out = [('the value returned is the sum of the transmissions', cmp('eq', ret, mul(s.qq(a), s.value(ctx, a)))),
               ('the spin limit stays within the table', band(cmp('ge', jm, 0), cmp('lt', jm, d.MJ)))]
        if a[0] == SUMALL or not s.verifying: out.append(('the sum of the transmissions is not negative', cmp('ge', s.value(ctx, a), 0)))
        t0, t1 = old.ld(total(ctx)), new.ld(total(ctx))
        if a[0] == HAUSER: out.append(('the population gained is the value returned', cmp('eq', t1, add(t0, ret))))
        elif s.verifying: out.append(('summing does not change the population', cmp('eq', t1, t0)))
        return out
    def case(s, ctx, a):
        c = odd(State(ctx, Guard()), a[7]); return c if s.odd else bnot(c)
class ContSum0(Cont): mode = SUMALL; odd = 0
class ContSum1(Cont): mode = SUMALL; odd = 1
class ContPop0(Cont): mode = HAUSER; odd = 0
class ContPop1(Cont): mode = HAUSER; odd = 1

class Disc(Contract):
    """neutrons to a discrete level of the daughter"""
    name = 'specTransitionParticleDisc'; src = PAR; mode = None; opts = {'steps': True}
    def make(s, ctx):
        n0, n1 = two_nuclei(ctx)
        return [s.mode, z3.Int('k1'), z3.Int('pcn'), z3.Int('jcn'), Tran(ctx, OBJ(ctx, 'Transmission', 'td')), z3.Real('q'), n0, n1]
    def pre(s, ctx, a, st):
        mode, k1, pcn, jcn, td, q, n0, n1 = a; d = Dims(ctx)
        return d.pre() + spin_half(st, n0) + waves(ctx, st, td) + [('the level exists', band(cmp('ge', k1, 0), cmp('lt', k1, d.NLEV))), ('the spin of the level is known', cmp('ge', st.ld(n1, 'lev', k1, 'spin'), 0)), ('parity', bor(cmp('eq', pcn, 1), cmp('eq', pcn, -1))), ('the population is not negative', cmp('ge', q, 0)),
              ('the spin is not negative', cmp('ge', jcn, 0))] + cascade.universal_pre(s, s.facts(ctx, a, st))
    facts = Cont.facts
    def frame(s, ctx, a):
        return [] if a[0] == SUMALL else [Loc(s.entry(ctx).at(a[7], 'lpop', a[1]), DBL), Loc(total(ctx), DBL)]
    def ok(s, ctx, a, st, l, up):
        mode, k1, pcn, jcn, td, q, n0, n1 = a
        jp = 2 * l + (1 if up else -1); j1 = z3.ToInt(zr(mul(st.ld(n1, 'lev', k1, 'spin'), 2))); J = zi(jcn)
        pl = z3.If(l % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
        return z3.And(pl == zi(pcn) * zi(st.ld(n1, 'lev', k1, 'parity')), j1 <= J + jp, j1 >= J - jp, j1 >= jp - J, jp >= 0)
    def part(s, ctx, a, st, l, up):
        mode, k1, pcn, jcn, td, q, n0, n1 = a
        return z3.If(s.ok(ctx, a, st, l, up), zr(st.ld(td, 'tran', simp(3 * l + (0 if up else 1)))), z3.RealVal(0))
    def value(s, ctx, a): return NDA(zi(a[1]), zi(a[2]), zi(a[3]))
    def qq(s, a): return a[5] if a[0] == HAUSER else Fraction(1)
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq); mode, k1, pcn, jcn, td, q, n0, n1 = a
        cascade.fact_rules(ctx, s.facts(ctx, a, st))
        def r(t):
            m = t.arg(3); x = z3.simplify(m - 1)
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == ND(t.arg(0), t.arg(1), t.arg(2), x) + s.part(ctx, a, st, x, True) + s.part(ctx, a, st, x, False))]
        ctx.rules['neutronToLevel'] = r
        ctx.assume(s.value(ctx, a) == ND(zi(k1), zi(pcn), zi(jcn), zi(st.ld(td, 'lmax')) + 1))
        def rule(ctx, p, m, idx, d, g):
            ctx.oblige('a neutron leads to the level it is meant for', m == 'lpop' and p.r is n1.r and cmp('eq', idx[-1], k1), g, 'mon')
            ctx.oblige('no population is lost', cmp('ge', d, 0), g, 'mon')
            alts = [z3.And(l >= 0, s.ok(ctx, a, st, l, up), zr(d) == zr(q) * zr(st.ld(td, 'tran', simp(3 * l + 1 - up)))) for l in wave_candidates(ctx) for up in (1, 0)]
            ctx.oblige('the population gained is that of a partial wave that couples the spins and parities', z3.Or(*alts) if alts else False, g, 'mon')
        watch(ctx, [n0, n1], rule)
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq); mode, k1, pcn, jcn, td, q, n0, n1 = a
        A = (zi(k1), zi(pcn), zi(jcn))
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); k = zi(L.k); Q = zr(s.qq(a)); out = [('not negative', ND(*A, k) >= 0)]
            for m, v in L.reals(): out.append((m + ' sum', zr(v) == Q * ND(*A, k)))
            if mode == HAUSER: out.append(('total', zb(cmp('eq', st.ld(total(ctx)), add(old.ld(total(ctx)), Q * ND(*A, k))))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        out = [('the value returned is the sum of the transmissions', cmp('eq', ret, mul(s.qq(a), s.value(ctx, a))))]
        if a[0] == SUMALL or not s.verifying: out.append(('the sum of the transmissions is not negative', cmp('ge', s.value(ctx, a), 0)))
        t0, t1 = old.ld(total(ctx)), new.ld(total(ctx))
        if a[0] == HAUSER: out.append(('the population gained is the value returned', cmp('eq', t1, add(t0, ret))))
        elif s.verifying: out.append(('summing does not change the population', cmp('eq', t1, t0)))
        return out
class DiscSum(Disc): mode = SUMALL
class DiscPop(Disc): mode = HAUSER

PB = z3.Function('neutronToBins', I, I, I, I, R)        # neutronToBins(k0,p,2J,m): to the first m bins of the daughter from bin k0 on
PL = z3.Function('neutronToLevels', I, I, I, R)         # neutronToLevels(p,2J,m): to the first m levels
PA = z3.Function('neutronSum', I, I, I, R)
class Particle(Contract):
    """all neutrons of a continuum state"""
    name = 'specTransitionParticle'; src = PAR; mode = None; bound = ('kk',); opts = {'inst': ('kk',)}
    def make(s, ctx):
        n0, n1 = two_nuclei(ctx); d = Dims(ctx); T = find_struct(ctx, 'Transmission')
        tc, td = ARR('tc', T, d.NB), ARR('td', T, d.NLEV)
        for p in (tc, td): Tran(ctx, p)
        return [s.mode, z3.Int('k0'), z3.Int('pcn'), z3.Int('jcn'), tc, td, z3.Real('q'), n0, n1, ARR('spc', DBL, d.NB)]
    def uses(s): return [Cont(), Disc(), FindBin()]
    def pre(s, ctx, a, st):
        mode, k0, pcn, jcn, tc, td, q, n0, n1, spc = a; d = Dims(ctx); jm = st.ld(n1, 'jmax')
        B_ = st.ld(n0, 'cdt', 1, 'binding_energy')
        return d.pre() + spin_half(st, n0) + [('parent and daughter are different nuclei', distinct(n0, n1)), ('the bin exists', band(cmp('ge', k0, 0), cmp('lt', k0, d.NB))), ('parity', bor(cmp('eq', pcn, 1), cmp('eq', pcn, -1))), ('the population is not negative', cmp('ge', q, 0)), ('the spin limit lies within the table', band(cmp('ge', jm, 0), cmp('lt', jm, d.MJ))),
              ('the spin differs from those of the daughter by a half', band(cmp('ge', jcn, 0), cmp('eq', unz((zi(add(jcn, half(st, n1)))) % 2), 1))),
              ('the numbers of bins and levels fit the tables', band(cmp('le', st.ld(n1, 'ncont'), d.NB), cmp('ge', st.ld(n1, 'ndisc'), 0), cmp('le', st.ld(n1, 'ndisc'), d.NLEV))), ('the bin width is set', cmp('gt', st.ld(n1, 'de'), 0)),
              ('the energy lies within the grid', cmp('le', sub(st.ld(n0, 'excitation', k0), B_), mul(sub(d.NB, 1), st.ld(n1, 'de'))))] + cascade.universal_pre(s, s.facts(ctx, a, st))
    def facts(s, ctx, a, st):
        mode, k0, pcn, jcn, tc, td, q, n0, n1, spc = a; i, k = z3.Int('ii'), z3.Int('kk'); out = []; T = ctx.type_at(tc)
        d = Dims(ctx)
        for p, nm, N in ((tc, 'bins', d.NB), (td, 'levels', d.NLEV)):
            l = st.ld(p, k, 'lmax', et=T); out.append((l, 'the partial waves to %s fit the table' % nm, bimp(band(cmp('ge', k, 0), cmp('lt', k, N)), cmp('lt', l, Dims(ctx).MJ))))
            t = st.ld(p, k, 'tran', i, et=T); out.append((t, 'transmission coefficients to %s are not negative' % nm, bimp(band(cmp('ge', k, 0), cmp('lt', k, N), cmp('gt', l, 0), cmp('ge', i, 0), cmp('lt', i, mul(add(l, 1), 3))), cmp('ge', t, 0))))
        ini = band(cmp('ge', i, 0), cmp('lt', i, st.ld(n1, 'ndisc')))
        sp = st.ld(n1, 'lev', i, 'spin'); out.append((sp, 'level spins are known', bimp(ini, cmp('ge', sp, 0))))
        e = st.ld(n1, 'lev', i, 'energy'); out.append((e, 'level energies are not negative', bimp(ini, cmp('ge', e, 0))))
        return out
    def frame(s, ctx, a):
        st = s.entry(ctx); n1 = a[8]; out = [Loc(st.at(n1, 'jmax'), I32)]
        if a[0] == HAUSER: out += [Loc(st.at(n1, 'pop', 0, 0), find_struct(ctx, 'Parity'), 'rows'), Loc(st.at(n1, 'lpop', 0), DBL, 'all'), Loc(total(ctx), DBL), Loc(a[9], DBL, 'all')]
        return out
    def value(s, a): return PA(zi(a[1]), zi(a[2]), zi(a[3]))
    def qq(s, a): return a[6] if a[0] == HAUSER else Fraction(1)
    def before(s, ctx, a):
        mode, k0, pcn, jcn, tc, td, q, n0, n1, spc = a
        st = State(ctx, Guard(), ctx.seq); T = ctx.type_at(tc)
        cascade.BV.extend(x for x in (z3.Int('kk'),) if not any(x.eq(y) for y in cascade.BV))
        cascade.fact_rules(ctx, s.facts(ctx, a, st))
        def r1(t):
            m = t.arg(3); x = z3.simplify(m - 1)
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == PB(t.arg(0), t.arg(1), t.arg(2), x) + z3.If(zi(st.ld(tc, x, 'lmax', et=T)) > 0, NCA(z3.simplify(zi(k0) + x), zi(pcn), zi(jcn)), z3.RealVal(0)))]
        def r2(t):
            m = t.arg(2); x = z3.simplify(m - 1)
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == PL(t.arg(0), t.arg(1), x) + z3.If(zi(st.ld(td, x, 'lmax', et=T)) > 0, NDA(x, zi(pcn), zi(jcn)), z3.RealVal(0)))]
        ctx.rules['neutronToBins'] = r1; ctx.rules['neutronToLevels'] = r2
        A = (zi(k0), zi(pcn), zi(jcn))
        ctx.assume(s.value(a) == PB(*A, zi(st.ld(n1, 'ncont')) - zi(k0)) + PL(A[1], A[2], zi(st.ld(n1, 'ndisc'))))
        watch(ctx, [n0, n1], None)
    def same(s, ctx, a, old, new):
        """levels that cannot be reached keep their population"""
        k = z3.Int('kk'); T = ctx.type_at(a[5])
        return bimp(cmp('le', old.ld(a[5], k, 'lmax', et=T), 0), cmp('eq', new.ld(a[8], 'lpop', k), old.ld(a[8], 'lpop', k)))
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq); mode, k0, pcn, jcn, tc, td, q, n0, n1, spc = a
        A = (zi(k0), zi(pcn), zi(jcn))
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); out = []; k = zi(L.k); Q = zr(s.qq(a))
            accs = [PB(*A, k), PB(*A, zi(old.ld(n1, 'ncont')) - zi(k0)) + PL(A[1], A[2], k), PL(A[1], A[2], k)]
            for i, acc in enumerate(accs):
                for m, v in L.reals(): out.append((m + ' sum of transmissions %d' % i, zr(v) == Q * acc))
                out.append(('not negative %d' % i, acc >= 0))
                if mode == HAUSER: out.append(('total %d' % i, zb(cmp('eq', st.ld(total(ctx)), add(old.ld(total(ctx)), Q * acc)))))
            jm = st.ld(n1, 'jmax'); out.append(('spin limit', zb(band(cmp('ge', jm, 0), cmp('lt', jm, Dims(ctx).MJ)))))
            if mode == HAUSER: out.append(('closed levels', zb(s.same(ctx, a, old, st))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        n1 = a[8]; jm = new.ld(n1, 'jmax'); d = Dims(ctx)
        out = [('the value returned is the sum of the transmissions', cmp('eq', ret, mul(s.qq(a), s.value(a)))),
               ('the spin limit stays within the table', band(cmp('ge', jm, 0), cmp('lt', jm, d.MJ)))]
        if a[0] == SUMALL or not s.verifying: out.append(('the sum of the transmissions is not negative', cmp('ge', s.value(a), 0)))
        t0, t1 = old.ld(total(ctx)), new.ld(total(ctx))
        if a[0] == HAUSER: out += [('the population gained is the value returned', cmp('eq', t1, add(t0, ret))), ('no neutron populates a level it cannot reach', s.same(ctx, a, old, new))]
        elif s.verifying: out.append(('summing does not change the population', cmp('eq', t1, t0)))
        return out
class ParticleSum(Particle): mode = SUMALL
class ParticlePop(Particle): mode = HAUSER

# ------------------------------------------------------------------ one state
def distinct(p, q):
    """p and q are different nuclei"""
    if p.r is not q.r: return True
    return cmp('ne', p.path[-1], q.path[-1])
def spec_tables(ctx):
    """gamma transmissions tg[3][bins], spectra spc[2][bins], neutron transmissions tc[bins], td[levels]"""
    d = Dims(ctx); T = find_struct(ctx, 'Transmission')
    r = Region('tg', PTR, 3, 'param'); ctx.pointee(Ptr(r, (0,)), DBL, d.NB)
    q = Region('spc', PTR, 4, 'param'); ctx.pointee(Ptr(q, (0,)), DBL, d.NB)
    tc, td = ARR('tc', T, d.NB), ARR('td', T, d.NLEV)
    for p in (tc, td): Tran(ctx, p)
    return Ptr(r, (0,)), tc, td, Ptr(q, (0,))
class TranSum(Contract):
    """all decays of one state"""
    name = 'specTransmissionSum'; src = SPM; mode = None; bound = ('kk', 'jj'); opts = {'inst': ('kk', 'jj')}
    def make(s, ctx):
        tg, tc, td, spc = spec_tables(ctx); n = Nuc(ctx, State(ctx, Guard()))
        return [s.mode, ARR('tstat', INT(8), 2), z3.Int('k0'), z3.Int('p0'), z3.Int('j0'), tg, tc, td, z3.Real('q'), n.at(z3.Int('c0')), spc]
    def uses(s): return [Gamma(), Particle()]
    def on(s, a, st): return [cmp('ne', st.ld(a[1], i, et=INT(8)), 0) for i in (0, 1)]
    def n1(s, ctx, a, st): return Nuc(ctx, st).at(st.ld(a[9], 'cdt', 1, 'next'))
    def gargs(s, ctx, a, st): return [a[0], a[2], a[3], a[4], a[5], a[8], a[9], st.ld(a[10], 0, et=PTR)]
    def pargs(s, ctx, a, st): return [a[0], a[2], a[3], a[4], a[6], a[7], a[8], a[9], s.n1(ctx, a, st), st.ld(a[10], 1, et=PTR)]
    def pre(s, ctx, a, st):
        G, P = Gamma(), Particle(); G.verifying = P.verifying = s.verifying
        on = s.on(a, st); out = []
        c0, c1 = a[9].path[-1], st.ld(a[9], 'cdt', 1, 'next')
        out += [('the nucleus exists', IN(c0)), ('the daughter exists and is another nucleus', bimp(on[1], band(IN(c1), cmp('ne', c0, c1))))] + cascade.chain_fits()
        out += [(nm, bimp(on[0], c)) for nm, c in G.pre(ctx, s.gargs(ctx, a, st), st)]
        out += [('neutrons: ' + nm, bimp(on[1], c)) for nm, c in P.pre(ctx, s.pargs(ctx, a, st), st)]
        return out
    def frame(s, ctx, a):
        st = s.entry(ctx); out = []
        for n in (a[9], s.n1(ctx, a, st)):
            out.append(Loc(st.at(n, 'jmax'), I32))
            if a[0] == HAUSER: out += [Loc(st.at(n, 'pop', 0, 0), find_struct(ctx, 'Parity'), 'rows'), Loc(st.at(n, 'lpop', 0), DBL, 'all')]
        if a[0] == HAUSER: out += [Loc(total(ctx), DBL), Loc(st.at(a[10], 0, 0, et=PTR), DBL, 'rows')]
        return out
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq); on = s.on(a, st)
        cascade.BV.extend(x for x in (z3.Int('kk'),) if not any(x.eq(y) for y in cascade.BV))
        for i, (C, ar) in enumerate(((Gamma(), s.gargs(ctx, a, st)), (Particle(), s.pargs(ctx, a, st)))):
            cascade.fact_rules(ctx, [(t, nm, bimp(on[i], f)) for t, nm, f in C.facts(ctx, ar, st)])
        watch(ctx, [a[9]], None)
    def value(s, ctx, a, st):
        on = s.on(a, st); A = (zi(a[2]), zi(a[3]), zi(a[4]))
        return add(ite(on[0], GA(*A), Fraction(0)), ite(on[1], PA(*A), Fraction(0)))
    def qq(s, a): return a[8] if a[0] == HAUSER else Fraction(1)
    def same(s, ctx, a, old, new):
        k, j = z3.Int('kk'), z3.Int('jj'); n0, n1 = a[9], s.n1(ctx, a, old); T = ctx.type_at(a[7]); on = s.on(a, old)
        return [('photons lead to lower bins only', bimp(cmp('le', k, a[2]), band(*[cmp('eq', new.ld(n0, 'pop', k, j, m), old.ld(n0, 'pop', k, j, m)) for m in ('even', 'odd')]))),
                ('no neutron populates a level it cannot reach', bimp(bor(bnot(on[1]), cmp('le', old.ld(a[7], k, 'lmax', et=T), 0)), bor(cmp('eq', n1.path[-1], n0.path[-1]), cmp('eq', new.ld(n1, 'lpop', k), old.ld(n1, 'lpop', k)))))]
    def post(s, ctx, a, old, new, ret):
        n0, n1 = a[9], s.n1(ctx, a, old); d = Dims(ctx); on = s.on(a, old)
        V = s.value(ctx, a, old)
        out = [('the value returned is the sum of the transmissions', cmp('eq', ret, mul(s.qq(a), V)))]
        for i, n in enumerate((n0, n1)):
            jm = new.ld(n, 'jmax'); out.append(('the spin limit stays within the table (%d)' % i, bimp(on[i], band(cmp('ge', jm, 0), cmp('lt', jm, d.MJ)))))
            out.append(('the spin limit of a closed channel is unchanged (%d)' % i, bor(on[i], cmp('eq', n0.path[-1], n1.path[-1]), cmp('eq', jm, old.ld(n, 'jmax')))))
        if a[0] == SUMALL or not s.verifying: out.append(('the sum of the transmissions is not negative', cmp('ge', V, 0)))
        t0, t1 = old.ld(total(ctx)), new.ld(total(ctx))
        if a[0] == HAUSER: out += [('the population gained is the value returned', cmp('eq', t1, add(t0, ret)))] + s.same(ctx, a, old, new)
        elif s.verifying: out.append(('summing does not change the population', cmp('eq', t1, t0)))
        return out
class TranSumSum(TranSum): mode = SUMALL
class TranSumPop(TranSum): mode = HAUSER

class Bypass(Contract):
    """a state that cannot decay feeds one discrete level"""
    name = 'specPopulationBypass'; src = SPM
    def make(s, ctx): return [z3.Int('k0'), z3.Real('dp'), Nuc(ctx, State(ctx, Guard())).at(z3.Int('c0')), ARR('spc', DBL, Dims(ctx).NB), z3.Int('jspin'), z3.Int('p0')]
    def uses(s): return [FindBin()]
    def pre(s, ctx, a, st):
        d = Dims(ctx); nd = st.ld(a[2], 'ndisc'); n = a[2]
        return d.pre() + cascade.chain_fits() + [('the nucleus exists', IN(n.path[-1])), ('there are levels', band(cmp('ge', nd, 1), cmp('le', nd, d.NLEV))), ('the bin exists', band(cmp('ge', a[0], 0), cmp('lt', a[0], d.NB))), ('the bin width is set', cmp('gt', st.ld(n, 'de'), 0)),
                ('the spin is one of the table', band(cmp('ge', a[4], 0), cmp('lt', a[4], d.MJ)))] + cascade.universal_pre(s, s.facts(ctx, a, st))
    def facts(s, ctx, a, st):
        i = z3.Int('ii'); n = a[2]; sp = st.ld(n, 'lev', i, 'spin')
        return [(sp, 'level spins are known', bimp(band(cmp('ge', i, 0), cmp('lt', i, st.ld(n, 'ndisc'))), band(cmp('ge', sp, 0), cmp('le', sp, 50))))]
    def frame(s, ctx, a): return [Loc(s.entry(ctx).at(a[2], 'lpop', 0), DBL, 'all'), Loc(total(ctx), DBL)]
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq)
        cascade.fact_rules(ctx, s.facts(ctx, a, st))
        def rule(ctx, p, m, idx, d, g):
            ctx.oblige('only a discrete level of the nucleus is fed', m == 'lpop' and band(*[cmp('eq', x, y) for x, y in zip(idx[:-1], [v for v in st.at(a[2], 'lpop', 0).path if not isinstance(v, tuple)])], cmp('ge', idx[-1], 0), cmp('lt', idx[-1], st.ld(a[2], 'ndisc'))), g, 'mon')
            ctx.oblige('the whole population is moved', cmp('eq', d, a[1]), g, 'mon')
        watch(ctx, [a[2]], rule)
    def hooks(s, ctx, a):
        def hk(ctx, g, fr, hd, L):
            out = []
            for n, v in L.ints():
                out.append((n + ' level found', zb(bimp(cmp('ge', L.k, 1), cmp('ge', v, 0)))))
                out.append((n + ' below', zb(band(cmp('ge', v, -1), cmp('lt', v, L.k)))))
            for m, w in L.reals(): out.append((m + ' not yet', zb(bimp(cmp('eq', L.k, 0), cmp('eq', w, 1000)))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        return [('the whole population goes to a level', cmp('eq', new.ld(total(ctx)), add(old.ld(total(ctx)), a[1])))]

RS = z3.Function('rowSum', I, R)              # rowSum(m): population of the first m spins of the bin that decays
class Decay(Contract):
    """every state of a bin decays: what it held is distributed over lower states"""
    name = 'specCompoundDecay'; src = SPM; bound = ('kk', 'jj'); opts = {'inst': ('kk', 'jj'), 'steps': True}
    def make(s, ctx):
        tg, tc, td, spc = spec_tables(ctx); Nuc(ctx, State(ctx, Guard()))
        return [z3.Int('c0'), z3.Int('k0'), tc, td, tg, spc]
    def uses(s): return [TranSum(), Bypass()]
    def n0(s, ctx, a, st): return Nuc(ctx, st).at(a[0])
    def n1(s, ctx, a, st): return Nuc(ctx, st).at(Nuc(ctx, st).v(a[0], 'cdt', 1, 'next'))
    def open(s, ctx, a, st):
        n = s.n0(ctx, a, st)
        return band(cmp('ne', st.ld(n, 'cdt', 1, 'status'), 0), cmp('ge', st.ld(n, 'excitation', a[1]), st.ld(n, 'cdt', 1, 'binding_energy')))
    def pre(s, ctx, a, st): return s.pre0(ctx, a, st) + cascade.universal_pre(s, s.facts(ctx, a, st))
    def pre0(s, ctx, a, st):
        c0, k0, tc, td, tg, spc = a; d = Dims(ctx); n = s.n0(ctx, a, st); m = s.n1(ctx, a, st); on = cmp('ne', st.ld(n, 'cdt', 1, 'status'), 0)
        V = lambda p, *x: st.ld(p, *x)
        fits = lambda p: band(cmp('le', V(p, 'ncont'), d.NB), cmp('ge', V(p, 'ndisc'), 1), cmp('le', V(p, 'ndisc'), d.NLEV), cmp('gt', V(p, 'de'), 0), cmp('ge', V(p, 'jmax'), 0), cmp('lt', V(p, 'jmax'), d.MJ))
        nx = V(n, 'cdt', 1, 'next'); h0 = V(n, 'lev', 0, 'spin'); h1 = V(m, 'lev', 0, 'spin')
        out = d.pre() + cascade.chain_fits() + [('the nucleus exists', IN(c0)), ('the bin exists', band(cmp('ge', k0, 0), cmp('lt', k0, d.NB))), ('bins, levels and spins fit the tables', fits(n)), ('the daughter is the next nucleus', bimp(on, band(IN(nx), cmp('eq', nx, add(c0, 1))))),
               ('bins, levels and spins of the daughter fit the tables', bimp(on, fits(m))), ('the neutron has spin 1/2', cmp('eq', V(n, 'cdt', 1, 'spin2'), 1)), ('the spins of the daughter differ by a half', bimp(on, cmp('eq', add(half(st, n), half(st, m)), 1))),
               ('the energy lies within the grid', cmp('le', V(n, 'excitation', k0), mul(sub(d.NB, 1), V(n, 'de')))), ('the energy lies within the grid of the daughter', bimp(on, cmp('le', sub(V(n, 'excitation', k0), V(n, 'cdt', 1, 'binding_energy')), mul(sub(d.NB, 1), V(m, 'de')))))]
        return out
    def facts(s, ctx, a, st):
        c0, k0, tc, td, tg, spc = a; n, m = s.n0(ctx, a, st), s.n1(ctx, a, st); k, j, i = z3.Int('kk'), z3.Int('jj'), z3.Int('ii')
        on = cmp('ne', st.ld(n, 'cdt', 1, 'status'), 0)
        out = list(Gamma().facts(ctx, [HAUSER, k0, 0, 0, tg, 0, n, None], st))
        out += [(t, 'neutrons: ' + nm, bimp(s.open(ctx, a, st), f)) for t, nm, f in Particle().facts(ctx, [HAUSER, k0, 0, 0, tc, td, 0, n, m, None], st)]
        for w in ('even', 'odd'):
            t = st.ld(n, 'pop', k, j, w); out.append((t, 'populations are not negative', bimp(cmp('eq', k, k0), cmp('ge', t, 0))))
        sp = st.ld(n, 'lev', i, 'spin'); out.append((sp, 'level spins are limited', bimp(band(cmp('ge', i, 0), cmp('lt', i, st.ld(n, 'ndisc'))), cmp('le', sp, 50))))
        return out
    def frame(s, ctx, a):
        st = s.entry(ctx); out = [Loc(total(ctx), DBL), Loc(st.at(a[5], 0, 0, et=PTR), DBL, 'rows')]
        for n in (s.n0(ctx, a, st), s.n1(ctx, a, st)):
            out += [Loc(st.at(n, 'jmax'), I32), Loc(st.at(n, 'pop', 0, 0), find_struct(ctx, 'Parity'), 'rows'), Loc(st.at(n, 'lpop', 0), DBL, 'all')]
        return out
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq); n = s.n0(ctx, a, st)
        cascade.BV.extend(x for x in (z3.Int('kk'),) if not any(x.eq(y) for y in cascade.BV))
        cascade.fact_rules(ctx, s.facts(ctx, a, st))
        def r(t):
            x = z3.simplify(t.arg(0) - 1)
            return [z3.Implies(t.arg(0) <= 0, t == 0), z3.Implies(t.arg(0) > 0, t == RS(x) + zr(st.ld(n, 'pop', a[1], x, 'even')) + zr(st.ld(n, 'pop', a[1], x, 'odd')))]
        ctx.rules['rowSum'] = r
        watch(ctx, [n], None)
    def same(s, ctx, a, old, new):
        k, j = z3.Int('kk'), z3.Int('jj'); n, m = s.n0(ctx, a, old), s.n1(ctx, a, old); T = ctx.type_at(a[3]); op = s.open(ctx, a, old); on = cmp('ne', old.ld(n, 'cdt', 1, 'status'), 0)
        return [('bins not below the one that decays keep their population', bimp(cmp('le', k, a[1]), band(*[cmp('eq', new.ld(n, 'pop', k, j, w), old.ld(n, 'pop', k, j, w)) for w in ('even', 'odd')]))),
                ('no neutron populates a level it cannot reach', bimp(band(on, bor(bnot(op), cmp('le', old.ld(a[3], k, 'lmax', et=T), 0))), cmp('eq', new.ld(m, 'lpop', k), old.ld(m, 'lpop', k))))]
    def limits(s, ctx, a, old, new):
        n, m = s.n0(ctx, a, old), s.n1(ctx, a, old); d = Dims(ctx); on = cmp('ne', old.ld(n, 'cdt', 1, 'status'), 0)
        f = lambda p: band(cmp('ge', new.ld(p, 'jmax'), 0), cmp('lt', new.ld(p, 'jmax'), d.MJ))
        return [('the spin limit stays within the table', f(n)), ('the spin limit of the daughter stays within the table', bimp(on, f(m)))]
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); n = s.n0(ctx, a, old)
            row = [('row ' + w, zb(cmp('eq', st.ld(n, 'pop', a[1], z3.Int('jj'), w), old.ld(n, 'pop', a[1], z3.Int('jj'), w)))) for w in ('even', 'odd')]
            return row + [('total', zb(cmp('eq', st.ld(total(ctx)), add(old.ld(total(ctx)), RS(zi(L.k))))))] + [(nm, zb(c)) for nm, c in s.same(ctx, a, old, st) + s.limits(ctx, a, old, st)]
        return [hk]
    def post(s, ctx, a, old, new, ret):
        return [('what the bin held is distributed, no more and no less', cmp('eq', new.ld(total(ctx)), add(old.ld(total(ctx)), RS(zi(Dims(ctx).MJ)))))] + s.same(ctx, a, old, new) + s.limits(ctx, a, old, new)

# ------------------------------------------------------------------ transmission coefficients
OMC = 'libcgmf/src/omcalc.cpp'
class SetEnergyT(Contract):
    """channel energy and wave number"""
    name = 'omSetEnergy'; trusted = True
    def frame(s, ctx, a): return [Loc(a[3], find_struct(ctx, 'CCdata'))]
class SetOmpT(Contract):
    """optical potential parameters"""
    name = 'omSetOmp'; trusted = True
    def frame(s, ctx, a): return [Loc(a[6], find_struct(ctx, 'Optical'))]
class PotentialT(Contract):
    """optical potential on the radial mesh"""
    name = 'omPotentialForm'; trusted = True
    def frame(s, ctx, a):
        st = s.entry(ctx); p = a[4]
        return [Loc(st.at(p, 'n_match'), I32)] + [Loc(st.at(p, m), DBL) for m in ('rad_match', 'rho_match')] + [Loc(st.at(p, m, 0), DBL, 'all') for m in ('radi', 'coulomb')] + [Loc(st.at(p, m, 0), find_struct(ctx, 'Complex'), 'all') for m in ('mean_field', 'spin_orbit')]
class ExternalT(Contract):
    """external wave functions up to a partial wave below MAX_L-1"""
    name = 'omExternalFunction'; trusted = True
    def frame(s, ctx, a): return [Loc(s.entry(ctx).at(a[4], m, 0), find_struct(ctx, 'Complex'), 'all') for m in ('external', 'extderiv')]
    def post(s, ctx, a, old, new, ret): return [('partial waves', band(cmp('ge', ret, -1), cmp('le', ret, 48)))]
class InternalT(Contract):
    name = 'omInternalFunction'; trusted = True
    def frame(s, ctx, a): return [Loc(s.entry(ctx).at(a[7], 'internal', 0), find_struct(ctx, 'Complex'), 'all')]
class SmatrixT(Contract):
    name = 'omSmatrix'; trusted = True
class OmCalc(Contract):
    """transmission coefficients of the optical model"""
    name = 'omCalc'; src = OMC; bound = ('ii',)
    def make(s, ctx):
        d = Dims(ctx); p = OBJ(ctx, 'Pdata', 'proj')
        return [z3.Real('energy'), p, OBJ(ctx, 'ZAnumber', 'targ'), z3.Real('mu'), ARR('tran', DBL, mul(d.MJ, 3)), OBJ(ctx, 'CrossSection', 'crx')]
    def uses(s): return [SetEnergyT(), SetOmpT(), PotentialT(), ExternalT(), InternalT(), SmatrixT()]
    def pre(s, ctx, a, st):
        return [('the projectile is a neutron', band(cmp('eq', st.ld(a[1], 'spin'), Fraction(1, 2)), cmp('eq', st.ld(a[1], 'particle', 'Z'), 0))), ('there is room for the partial waves', cmp('ge', Dims(ctx).MJ, 50))]
    def frame(s, ctx, a): return [Loc(a[4], DBL, 'all'), Loc(a[5], find_struct(ctx, 'CrossSection'))]
    def hooks(s, ctx, a):
        i = z3.Int('ii')
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); out = []
            t = zr(st.ld(a[4], i)); k = zi(L.k)
            out.append(('cleared', z3.Implies(z3.And(i >= 0, i < k), t == 0)))
            out.append(('not negative', z3.Implies(z3.And(i >= 0, i < 150), t >= 0)))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        i = z3.Int('ii'); t = new.ld(a[4], i)
        return [('a closed channel has no partial waves', bimp(cmp('le', a[0], 0), cmp('eq', ret, -1))),
                ('the partial waves fit the table', band(cmp('ge', ret, -1), cmp('lt', ret, 50))),
                ('transmission coefficients are not negative', bimp(band(cmp('gt', a[0], 0), cmp('ge', i, 0), cmp('lt', i, 150)), cmp('ge', t, 0)))]

class StoreDisc(Contract):
    """transmission coefficients to the discrete levels of the daughter"""
    name = 'statStoreDiscreteTransmission'; src = STT; bound = ('kk', 'ii'); levels = True; opts = {'inst': ('kk',)}
    def make(s, ctx):
        d = Dims(ctx); T = find_struct(ctx, 'Transmission'); Nuc(ctx, State(ctx, Guard()))
        return [z3.Int('ip'), z3.Int('kp'), OBJ(ctx, 'Pdata', 'pdt'), Tran(ctx, ARR('td' if s.levels else 'tc', T, s.N(ctx)))]
    def N(s, ctx): return Dims(ctx).NLEV if s.levels else Dims(ctx).NB
    def uses(s): return [OmCalc()]
    def count(s, n, c): return n.v(c, 'ndisc' if s.levels else 'ntotal')
    def pre(s, ctx, a, st):
        d = Dims(ctx); n = Nuc(ctx, st); nx = n.v(a[0], 'cdt', 1, 'next'); m = s.count(n, nx)
        return d.pre() + cascade.chain_fits() + [('the nucleus exists', IN(a[0])), ('the bin exists', band(cmp('ge', a[1], 0), cmp('lt', a[1], d.NB))), ('the daughter exists', bor(cmp('eq', nx, -1), IN(nx))), ('the numbers of states fit the tables', bor(cmp('eq', nx, -1), cmp('le', m, s.N(ctx))))] + OmCalc().pre(ctx, [0, a[2]], st)
    def frame(s, ctx, a):
        T = find_struct(ctx, 'Transmission'); st = s.entry(ctx)
        return [Loc(st.at(a[3], 0, m, et=T), t, 'all') for m, t in (('lmax', I32), ('ecms', DBL), ('sigr', DBL))] + [Loc(st.at(a[3], 0, 'tran', 0, et=T), DBL, 'rows')]
    def inv(s, ctx, a, old, new, k):
        kk, ii = z3.Int('kk'), z3.Int('ii'); n = Nuc(ctx, old); nx = n.v(a[0], 'cdt', 1, 'next'); T = ctx.type_at(a[3])
        l = new.ld(a[3], kk, 'lmax', et=T); t = new.ld(a[3], kk, 'tran', ii, et=T); ink = band(cmp('ge', kk, 0), cmp('lt', kk, s.N(ctx)))
        e = n.energy(nx, kk) if s.levels else n.v(nx, 'excitation', kk)
        closed = cmp('le', n.v(a[0], 'excitation', a[1]), add(n.v(a[0], 'cdt', 1, 'binding_energy'), e))
        return [('the partial waves fit the table', bimp(ink, band(cmp('ge', l, -1), cmp('lt', l, 50)))), ('transmission coefficients are not negative', bimp(band(ink, cmp('gt', l, 0), cmp('ge', ii, 0), cmp('lt', ii, mul(add(l, 1), 3))), cmp('ge', t, 0))),
                ('states that cannot be reached have no partial waves', bimp(band(ink, closed), cmp('le', l, 0))), ('states beyond the last have no partial waves', bimp(band(ink, cmp('ge', kk, k)), cmp('eq', l, 0)))]
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq); kk = z3.Int('kk')
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); T = ctx.type_at(a[3])
            return [('cleared', zb(bimp(band(cmp('ge', kk, 0), cmp('lt', kk, L.k)), cmp('eq', st.ld(a[3], kk, 'lmax', et=T), 0))))] + [(nm, zb(c)) for nm, c in s.inv(ctx, a, old, st, L.k)]
        return [hk]
    def post(s, ctx, a, old, new, ret):
        n = Nuc(ctx, old); nx = n.v(a[0], 'cdt', 1, 'next')
        return s.inv(ctx, a, old, new, ite(cmp('eq', nx, -1), 0, amax(0, s.count(n, nx))))
class StoreCont(StoreDisc):
    """transmission coefficients to the bins of the daughter"""
    name = 'statStoreContinuumTransmission'; levels = False

class StoreGamma(Contract):
    """gamma-ray transmissions from bin k0 to the bins below"""
    name = 'statStoreGammaTransmission'; src = STT; bound = ('kk',); opts = {'inst': ('kk',)}
    def make(s, ctx):
        tg = spec_tables(ctx)[0]
        return [z3.Int('k0'), tg, Nuc(ctx, State(ctx, Guard())).at(z3.Int('c0'))]
    def uses(s): return [GammaTransT(), cascade.MassExcess()]
    def pre(s, ctx, a, st):
        d = Dims(ctx); n = a[2]
        return d.pre() + cascade.chain_fits() + [('the nucleus exists', IN(n.path[-1])), ('the bin exists', band(cmp('ge', a[0], 0), cmp('lt', a[0], d.NB))), ('the bins fit the table', cmp('le', st.ld(n, 'ncont'), d.NB))] + cascade.universal_pre(s, s.facts(ctx, a, st))
    def facts(s, ctx, a, st):
        k = z3.Int('kk'); n = a[2]; e = st.ld(n, 'excitation', k)
        return [(e, 'the bins descend', bimp(band(cmp('gt', k, a[0]), cmp('lt', k, st.ld(n, 'ncont'))), cmp('lt', e, st.ld(n, 'excitation', a[0]))))]
    def before(s, ctx, a):
        cascade.BV.extend(x for x in (z3.Int('kk'),) if not any(x.eq(y) for y in cascade.BV))
        cascade.fact_rules(ctx, s.facts(ctx, a, State(ctx, Guard(), ctx.seq)))
    def frame(s, ctx, a): return [Loc(s.entry(ctx).at(a[1], m, 0, et=PTR), DBL, 'all') for m in range(3)]
    def inv(s, ctx, a, old, new, last):
        k = z3.Int('kk')
        return [('transmissions to the continuum are not negative (%d)' % m, bimp(band(cmp('gt', k, a[0]), cmp('lt', k, last)), cmp('ge', new.ld(a[1], m, k, et=PTR), 0))) for m in range(3)]
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, hd, L): return [(nm, zb(c)) for nm, c in s.inv(ctx, a, old, State(ctx, g), add(add(a[0], 1), L.k))]
        return [hk]
    def post(s, ctx, a, old, new, ret): return s.inv(ctx, a, old, new, old.ld(a[2], 'ncont'))

class Binary(Contract):
    """the decay of one state of the compound nucleus: gamma rays and, if the channel is open, neutrons"""
    name = 'spectraBinary'; src = SPM; bound = ('kk', 'jj'); opts = {'inst': ('kk', 'jj')}
    def make(s, ctx):
        spc = spec_tables(ctx)[3]; Nuc(ctx, State(ctx, Guard()))
        return [z3.Int('c0'), OBJ(ctx, 'Pdata', 'pdt', 2), spc]
    def uses(s): return [StoreCont(), StoreDisc(), StoreGamma(), Decay()]
    def D(s, a, tc=None, td=None, tg=None): return [a[0], 0, tc, td, tg, a[2]]
    def pre(s, ctx, a, st):
        d = Dims(ctx); n = Nuc(ctx, st); nx = n.v(a[0], 'cdt', 1, 'next'); on = cmp('ne', n.v(a[0], 'cdt', 1, 'status'), 0)
        P = State(ctx, Guard()).at(a[1], 1, et=find_struct(ctx, 'Pdata'))
        return Decay().pre0(ctx, s.D(a), st) + [('the numbers of bins of the daughter fit the tables', bimp(on, cmp('le', n.v(nx, 'ntotal'), d.NB)))] + OmCalc().pre(ctx, [0, P], st) + cascade.universal_pre(s, s.facts(ctx, a, st))
    def facts(s, ctx, a, st):
        n = Nuc(ctx, st); c0 = a[0]; k, j, i = z3.Int('kk'), z3.Int('jj'), z3.Int('ii'); out = []; c1 = n.v(c0, 'cdt', 1, 'next'); on = cmp('ne', n.v(c0, 'cdt', 1, 'status'), 0)
        e = n.energy(c0, i); inl = band(cmp('ge', i, 0), cmp('lt', i, n.v(c0, 'ndisc')))
        out.append((e, 'levels lie below the continuum', bimp(inl, band(cmp('ge', e, 0), cmp('lt', e, n.v(c0, 'excitation', 0))))))
        sp = n.v(c0, 'lev', i, 'spin'); out.append((sp, 'level spins are known', bimp(inl, band(cmp('ge', sp, 0), cmp('le', sp, 50)))))
        inl = band(on, cmp('ge', i, 0), cmp('lt', i, n.v(c1, 'ndisc')))
        e = n.energy(c1, i); out.append((e, 'level energies of the daughter are not negative', bimp(inl, cmp('ge', e, 0))))
        sp = n.v(c1, 'lev', i, 'spin'); out.append((sp, 'level spins of the daughter are known', bimp(inl, cmp('ge', sp, 0))))
        x = n.v(c0, 'excitation', k); out.append((x, 'the bins descend', bimp(band(cmp('gt', k, 0), cmp('lt', k, n.v(c0, 'ncont'))), cmp('lt', x, n.v(c0, 'excitation', 0)))))
        for w in ('even', 'odd'):
            t = n.v(c0, 'pop', k, j, w); out.append((t, 'populations are not negative', bimp(cmp('eq', k, 0), cmp('ge', t, 0))))
        return out
    def frame(s, ctx, a):
        D = Decay(); D._seq0 = s._seq0; return D.frame(ctx, s.D(a))
    def before(s, ctx, a):
        cascade.BV.extend(x for x in (z3.Int('kk'),) if not any(x.eq(y) for y in cascade.BV))
        st = State(ctx, Guard(), ctx.seq); n = Nuc(ctx, st)
        cascade.fact_rules(ctx, s.facts(ctx, a, st))
        watch(ctx, [n.at(a[0])], None)
    def post(s, ctx, a, old, new, ret):
        D = Decay(); n0 = Nuc(ctx, old); c0 = a[0]; k, j = z3.Int('kk'), z3.Int('jj'); c1 = n0.v(c0, 'cdt', 1, 'next'); n = Nuc(ctx, new); on = cmp('ne', n0.v(c0, 'cdt', 1, 'status'), 0)
        closed = cmp('le', n0.v(c0, 'excitation', 0), add(n0.v(c0, 'cdt', 1, 'binding_energy'), n0.energy(c1, k)))
        return [('what the state held is distributed, no more and no less', cmp('eq', new.ld(total(ctx)), add(old.ld(total(ctx)), RS(zi(Dims(ctx).MJ))))),
                ('the bin that decays keeps its population', bimp(cmp('le', k, 0), band(*[cmp('eq', n.v(c0, 'pop', k, j, w), n0.v(c0, 'pop', k, j, w)) for w in ('even', 'odd')]))),
                ('no neutron populates a level it cannot reach', bimp(band(on, closed, cmp('ge', k, 0), cmp('lt', k, n0.v(c1, 'ndisc'))), cmp('eq', n.v(c1, 'lpop', k), n0.v(c1, 'lpop', k))))] + D.limits(ctx, s.D(a), old, new)
