"""Contracts for the distributions of the fragments before emission: mass, charge, total kinetic energy and spin (Yields.cpp, FissionFragments.cpp)."""
import ir
from contract import *
from dens import sitofp
from models import m_exp, m_pow, m_sqrt, m_log, POW
YL, FF = 'libcgmf/src/Yields.cpp', 'libcgmf/src/FissionFragments.cpp'
F = Fraction
PI2 = snap(F(2 * 3.14159265358979323846))
def flag(x): return x if (is_z(x) and z3.is_bool(x)) or isinstance(x, bool) else cmp('ne', x, 0)
def YOBJ(ctx): return OBJ(ctx, 'Yields', 'this')

class Gauss(Contract):
    """normal density of mean mu and width sig times w"""
    name = 'Yields::gaussian'; src = YL
    def make(s, ctx): return [YOBJ(ctx)] + list(z3.Reals('x w mu sig'))
    def pre(s, ctx, a, st): return [('the width is positive', cmp('gt', a[4], 0))] if s.verifying else []
    def frame(s, ctx, a): return []
    DEN = z3.Function('normalDensity', R, R, R, R)     # of weight, |x-mu| and sigma
    def ret_override(s, ctx, a, g, ret):
        d = sub(a[1], a[3]); return s.DEN(zr(a[2]), zr(ite(cmp('ge', d, 0), d, neg(d))), zr(a[4]))
    def post(s, ctx, a, old, new, ret):
        if not s.verifying: return []
        t, x, w, mu, sig = a; d = sub(x, mu)
        return [('the value is that of the normal distribution', cmp('eq', ret, mul(fdiv(w, mul(m_sqrt(ctx, PI2), sig)), m_exp(ctx, fdiv(fdiv(mul(mul(F(-1, 2), d), d), sig), sig)))))]

def modes(ctx, st, t, A):
    """sum of the five Gaussians: the symmetric one and two pairs at Abar and a_cn - Abar"""
    f = lambda n, i: st.ld(t, n, i); x, ac = sitofp(A), sitofp(st.ld(t, 'a_cn')); G = Gauss()
    g = lambda m, mu: G.ret_override(ctx, [t, x, f('w_e', m), mu, f('sig_e', m)], None, None)
    out = g(0, f('Abar', 0))
    for m in (1, 2): out = add(add(out, g(m, f('Abar', m))), g(m, sub(ac, f('Abar', m))))
    return out
def cn(st, t): return ('three fission modes, the symmetric one at half the mass', band(cmp('eq', st.ld(t, 'numModes'), 3), cmp('eq', mul(2, st.ld(t, 'Abar', 0)), sitofp(st.ld(t, 'a_cn'))), cmp('gt', st.ld(t, 'a_cn'), 0), cmp('lt', st.ld(t, 'a_cn'), 300)))
class YieldA(Contract):
    """mass yield: the five Gaussians, cut off at 1e-5; the same for a mass and its complement"""
    name = 'Yields::yieldA'; src = YL; opts = {'sym_unroll': 4}
    def make(s, ctx): return [YOBJ(ctx), z3.Int('A')]
    def pre(s, ctx, a, st): return [cn(st, a[0])]
    def uses(s): return [Gauss()]
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret):
        m = lambda A: modes(ctx, old, a[0], A); c = snap(F(1e-5)); cut = lambda v: ite(cmp('gt', v, c), v, F(0)); A = a[1]; C = sub(old.ld(a[0], 'a_cn'), A)
        return [('the yield is that of the fission modes', cmp('eq', ret, cut(m(A)))), ('a mass and its complement have the same yield', cmp('eq', cut(m(A)), cut(m(C)))), ('the yield is not negative', cmp('ge', ret, 0))]
def folded(st, t, A): ac = st.ld(t, 'a_cn'); return ite(cmp('ge', mul(2, A), ac), A, sub(ac, A))
def symm(ctx, st, t):
    """<TKE>(A) and its width are the same for a mass and its complement"""
    A = z3.Int('A'); ac = st.ld(t, 'a_cn'); inn = band(cmp('ge', A, 0), cmp('le', A, ac))
    return [('%s is the same for a mass and its complement' % n, bimp(inn, cmp('eq', st.ld(t, n, A), st.ld(t, n, sub(ac, A))))) for n in ('avTKE', 'sTKE')]
class YieldTKE(Contract):
    """distribution of the total kinetic energy for a mass: normal, cut off at 1e-7"""
    name = 'Yields::yieldTKE'; src = YL
    def make(s, ctx): return [YOBJ(ctx), z3.Int('A'), z3.Real('TKE')]
    def pre(s, ctx, a, st): return [('a mass', band(cmp('ge', a[1], 0), cmp('le', a[1], st.ld(a[0], 'a_cn')), cmp('gt', st.ld(a[0], 'a_cn'), 0), cmp('lt', st.ld(a[0], 'a_cn'), 300)))] + (symm(ctx, st, a[0]) if s.verifying else [])
    def uses(s): return [Gauss()]
    def frame(s, ctx, a): return []
    w = lambda s, ctx, old, a: F(1)
    cut = snap(F(1e-7))
    def post(s, ctx, a, old, new, ret):
        t = a[0]; q = folded(old, t, a[1]); v = Gauss().ret_override(ctx, [t, a[2], s.w(ctx, old, a), mul(old.ld(t, 'rescaleAverageTKE'), old.ld(t, 'avTKE', q)), old.ld(t, 'sTKE', q)], None, None)
        return [('the distribution has the mean and width of the mass', cmp('eq', ret, v if s.cut is None else ite(cmp('gt', v, s.cut), v, F(0))))]
class YieldATKE(YieldTKE):
    name = 'Yields::yieldATKE'; cut = None
    class Y(YieldA):
        YA = z3.Function('yieldOfMass', I, R)
        def post(s, ctx, a, old, new, ret): return []
        def pre(s, ctx, a, st): return []
        def ret_override(s, ctx, a, g, ret): ac = State(ctx, g, ctx.seq).ld(a[0], 'a_cn') if g is not None else z3.Int('ac'); return s.YA(zi(ite(cmp('ge', mul(2, a[1]), ac), a[1], sub(ac, a[1]))))
    def uses(s): return [Gauss(), YieldATKE.Y()]
    def w(s, ctx, old, a): return YieldATKE.Y.YA(zi(folded(old, a[0], a[1])))
class Mean(Contract):
    """mean total kinetic energy for a mass"""
    name = 'Yields::get_avTKE'; src = YL
    def make(s, ctx): return [YOBJ(ctx), z3.Int('A')]
    def pre(s, ctx, a, st): return [('a mass', band(cmp('ge', a[1], 0), cmp('le', a[1], st.ld(a[0], 'a_cn')), cmp('gt', st.ld(a[0], 'a_cn'), 0), cmp('lt', st.ld(a[0], 'a_cn'), 300)))] + (symm(ctx, st, a[0]) if s.verifying else [])
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret): return [('the mean is that of the mass, rescaled', cmp('eq', ret, mul(old.ld(a[0], 'rescaleAverageTKE'), old.ld(a[0], 'avTKE', folded(old, a[0], a[1])))))]
class SampledTKE(Mean):
    """sampled total kinetic energy: mean and width of the mass, one normal deviate"""
    name = 'Yields::sampleTKE'
    class N(Contract):
        name = 'Yields::sampleGaussian'; X = z3.Real('normalDeviate')
        def frame(s, ctx, a): return []
        def ret_override(s, ctx, a, g, ret): return s.X
    def uses(s): return [SampledTKE.N()]
    def post(s, ctx, a, old, new, ret):
        q = folded(old, a[0], a[1]); return [('the energy is normally distributed with the mean and width of the mass', cmp('eq', ret, add(mul(old.ld(a[0], 'rescaleAverageTKE'), old.ld(a[0], 'avTKE', q)), mul(old.ld(a[0], 'sTKE', q), SampledTKE.N.X))))]
class AverageTKE(Contract):
    """mean total kinetic energy of the reaction, linear in the energy"""
    name = 'Yields::averageTKE'; src = YL
    def make(s, ctx): return [YOBJ(ctx), z3.Real('e')]
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret): return [('linear in the energy', cmp('eq', ret, add(old.ld(a[0], 'TKE_fit_param', 0), mul(old.ld(a[0], 'TKE_fit_param', 1), a[1]))))]
class Viola(Contract):
    """systematics of the mean total kinetic energy"""
    name = 'Yields::ViolaSyst'; src = YL
    V = z3.Function('violaSystematics', I, R)
    def make(s, ctx): return [YOBJ(ctx), z3.Int('id')]
    def pre(s, ctx, a, st): return [('a nucleus', band(cmp('ge', a[1], 1001), cmp('lt', a[1], 140000)))] if s.verifying else []
    def frame(s, ctx, a): return []
    def ret_override(s, ctx, a, g, ret): return s.V(zi(a[1]))
    def post(s, ctx, a, old, new, ret):
        if not s.verifying: return []
        Z, A = a[1] / 1000, a[1] % 1000; x = fdiv(sitofp(mul(Z, Z)), m_pow(ctx, sitofp(A), snap(F(1.0 / 3.0)))); T = {92: ('-2.43783800e-03', '4.32954561'), 93: ('-2.47262338e-03', '4.46218351'), 94: ('-1.78668219e-03', '3.55865245'), 98: ('-3.44312133e-03', '6.20846742')}
        ka, kb = F(0), F(1)
        for z, (p, q) in T.items(): c = cmp('eq', Z, z); ka, kb = ite(c, snap(F(p)), ka), ite(c, snap(F(q)), kb)
        return [('Viola systematics with the scaling of the element', cmp('eq', ret, mul(add(mul(snap(F('0.1189')), x), snap(F('7.3'))), add(mul(ka, x), kb))))]

class System(Contract):
    """parameters of the nucleus that fissions: those of its own chance if there are any, else those of the first chance"""
    name = 'Yields::setFissioningSystem'; src = YL; opts = {'sym_unroll': 4}
    def make(s, ctx): return [YOBJ(ctx), z3.Int('id'), z3.Real('einc')]
    def uses(s): return [Viola()]
    def n(s, old, a): return sub(old.ld(a[0], 'id_cn0'), a[1])
    def pre(s, ctx, a, st): return [('up to three pre-fission neutrons', band(cmp('ge', s.n(st, a), 0), cmp('le', s.n(st, a), 3), cmp('eq', st.ld(a[0], 'numModes'), 3))), ('a nucleus', band(cmp('ge', a[1], 90000), cmp('lt', a[1], 99999), cmp('ge', st.ld(a[0], 'id_cn0') % 1000, 10)))]
    def frame(s, ctx, a):
        st = State(ctx, Guard()); return [Loc(st.at(a[0], 'a_cn'), I32), Loc(st.at(a[0], 'einc_now'), DBL), Loc(st.at(a[0], 'TKE_fit_param', 0), DBL, 2), Loc(st.at(a[0], 'TKEA_fit_param', 0), DBL, 11), Loc(st.at(a[0], 'sTKEA_fit_param', 0), DBL, 11)] + [Loc(st.at(a[0], f, 0), DBL, 3) for f in ('w_e', 'sig_e', 'Abar')]
    def post(s, ctx, a, old, new, ret):
        t, idn, e = a; O, N = lambda *x: old.ld(t, *x), lambda *x: new.ld(t, *x); n = s.n(old, a); out = []
        def pick(f, *ix):
            """entry of the chance n"""
            r = O(f, 3, *ix)
            for k in (2, 1, 0): r = ite(cmp('eq', n, k), O(f, k, *ix), r)
            return r
        tke, ya = flag(pick('NFsupp_TKE')) if False else bor(*[band(cmp('eq', n, k), flag(O('NFsupp_TKE', k))) for k in range(4)]), bor(*[band(cmp('eq', n, k), flag(O('NFsupp_YA', k))) for k in range(4)])
        T = lambda f, j: ite(tke, pick(f, j), O(f, 0, j)); Y = lambda f, m: ite(ya, pick(f, m), O(f, 0, m))
        V = Viola.V(zi(idn)); low = cmp('le', e, ite(tke, pick('tke_params', 4), F(0)))
        out.append(('the mean energy is that of the nucleus, below or above the inflection point, or that of the systematics', band(cmp('eq', N('TKE_fit_param', 0), ite(tke, ite(low, pick('tke_params', 0), pick('tke_params', 2)), V)), cmp('eq', N('TKE_fit_param', 1), ite(tke, ite(low, pick('tke_params', 1), pick('tke_params', 3)), F(-1, 4))))))
        for j in range(11): out.append(('coefficient %d of the mean and of the width as functions of mass' % j, band(cmp('eq', N('TKEA_fit_param', j), T('tkea_coeff', j)), cmp('eq', N('sTKEA_fit_param', j), T('stkea_coeff', j)))))
        ac = idn % 1000; shift = sitofp(ite(ya, 0, sub(ac, old.ld(t, 'id_cn0') % 1000)))
        out.append(('the fissioning nucleus and its energy are those given', band(cmp('eq', N('a_cn'), ac), cmp('eq', N('einc_now'), e))))
        for m in (1, 2):
            out += [('weight of mode %d' % m, cmp('eq', N('w_e', m), fdiv(F(1), add(F(1), m_exp(ctx, fdiv(sub(e, Y('w_a', m)), Y('w_b', m))))))), ('width of mode %d' % m, cmp('eq', N('sig_e', m), add(Y('sig_a', m), mul(Y('sig_b', m), e)))),
                    ('mean mass of mode %d, shifted with the nucleus if it has no parameters of its own' % m, cmp('eq', N('Abar', m), add(shift, add(Y('mu_a', m), mul(Y('mu_b', m), e)))))]
        return out + [('the weights of the modes add up to two fragments', cmp('eq', add(N('w_e', 0), mul(2, add(N('w_e', 1), N('w_e', 2)))), 2)), ('width of the symmetric mode', cmp('eq', N('sig_e', 0), add(Y('sig_a', 0), mul(Y('sig_b', 0), e)))), ('the symmetric mode lies at half the mass', cmp('eq', mul(2, N('Abar', 0)), sitofp(ac)))]

class MassTKE(Contract):
    """mean and width of the total kinetic energy as functions of mass: polynomials for the heavy fragment, the same for its complement, constant beyond the fitted masses"""
    name = 'Yields::setParametersAverageTKE'; src = YL; opts = {'inst': ('q',), 'sym_unroll': 10, 'pow_uf': True}
    NAMES = (('avTKE', 'TKEA_fit_param', 140), ('sTKE', 'sTKEA_fit_param', 7))
    def make(s, ctx): return [YOBJ(ctx)]
    def last(s, ctx, st, t, p): return ctx.cast('fptosi', DBL, st.ld(t, p, 1), I32)
    def pre(s, ctx, a, st):
        ac = st.ld(a[0], 'a_cn')
        return [('a nucleus', band(cmp('gt', ac, 0), cmp('lt', ac, 300)))] + [('the fit ends within the nucleus', band(cmp('le', st.ld(a[0], p, 1), sitofp(ac)), cmp('ge', st.ld(a[0], p, 1), 0))) for _, p, _ in s.NAMES]
    def frame(s, ctx, a): st = State(ctx, Guard()); return [Loc(st.at(a[0], n, 0), DBL, 300) for n, _, _ in s.NAMES]
    FIT = {n: z3.Function('fit_' + n, R, R) for n in ('avTKE', 'sTKE')}     # the polynomial, as a function of the distance to the expansion point
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq)
        def rule(t):
            if not (z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() == 8): return []
            return [s.FIT[n](t.arg(0)) == z3.Sum([zr(st.ld(a[0], p, j + 2)) * zr(m_pow(ctx, t.arg(0), F(j))) for j in range(9)]) for n, p, _ in s.NAMES]
        ctx.rules[POW.name()] = rule
    def value(s, ctx, st, t, n, p, d, q):
        ac = st.ld(t, 'a_cn'); h = ite(cmp('ge', mul(2, q), ac), q, sub(ac, q)); return ite(band(cmp('le', h, s.last(ctx, st, t, p)), cmp('ge', h, 0), cmp('le', q, ac)), s.FIT[n](zr(sub(sitofp(h), st.ld(t, p, 0)))), F(d))
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, hd, L):
            out = []; q, st, ac = z3.Int('q'), State(ctx, g), zi(old.ld(a[0], 'a_cn'))
            for nm, v in [('mass', (ac + 1) / 2 + zi(L.k))]:
                for n, p, d in s.NAMES:
                    h = z3.If(2 * q >= ac, q, ac - q)
                    out += [('%s of %s done' % (nm, n), z3.Implies(z3.And(q >= 0, q <= ac, h < v), zr(st.ld(a[0], n, q)) == s.FIT[n](z3.ToReal(h) - zr(old.ld(a[0], p, 0))))), ('%s of %s to do' % (nm, n), z3.Implies(z3.And(q >= 0, q < 300, z3.Or(h >= v, q > ac)), zr(st.ld(a[0], n, q)) == d))]
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        q = z3.Int('q'); inn = band(cmp('ge', q, 0), cmp('lt', q, 300)); ac = old.ld(a[0], 'a_cn')
        return [('%s of every mass' % n, bimp(inn, cmp('eq', new.ld(a[0], n, q), s.value(ctx, old, a[0], n, p, d, q)))) for n, p, d in s.NAMES]

SUM = z3.Function('partialSum', I, R)           # of <TKE>(a) y(a) over the masses below the index
class Rescale(Contract):
    """the mean over all masses of the mean total kinetic energy is that of the reaction"""
    name = 'Yields::setRescaleTKE'; src = YL; opts = {'inst': ('q',)}
    class M(MassTKE):
        def pre(s, ctx, a, st): return []
        def post(s, ctx, a, old, new, ret):
            Rescale.mean = staticmethod(lambda x: new.ld(a[0], 'avTKE', x)); return []     # the means it has set
    def make(s, ctx): return [YOBJ(ctx), ARR('y', DBL, 300), z3.Int('Amin'), z3.Int('Amax')]
    def pre(s, ctx, a, st): return [('masses', band(cmp('ge', a[2], 0), cmp('lt', a[3], 300)))]
    def uses(s): return [Rescale.M(), AverageTKE()]
    def frame(s, ctx, a): st = State(ctx, Guard()); return [Loc(st.at(a[0], n, 0), DBL, 300) for n in ('avTKE', 'sTKE')] + [Loc(st.at(a[0], 'rescaleAverageTKE'), DBL)]
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq)
        def rule(t): m = t.arg(0); x = z3.simplify(m - 1); return [z3.Implies(m <= zi(a[2]), t == 0), z3.Implies(m > zi(a[2]), t == SUM(x) + zr(Rescale.mean(x)) * zr(st.ld(a[1], x)))]
        ctx.rules['partialSum'] = rule
    def hooks(s, ctx, a):
        lo, hi = zi(a[2]), zi(a[3])
        def hk(ctx, g, fr, hd, L):
            k = zi(L.k); out = []
            for n, v in L.reals(): out += [(n + ' adds up from below', zr(v) == SUM(lo + k)), (n + ' adds up from above', zr(v) + SUM(hi + 1 - k) == SUM(hi + 1))]
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        S = SUM(zi(add(a[3], 1))); O = lambda *x: old.ld(a[0], *x)
        return [('rescaled by the ratio of the mean of the reaction to that of the masses', bimp(cmp('ge', a[3], a[2]), cmp('eq', new.ld(a[0], 'rescaleAverageTKE'), fdiv(add(O('TKE_fit_param', 0), mul(O('TKE_fit_param', 1), O('einc_now'))), S)))),
                ('the means of the masses are kept', bimp(band(cmp('ge', z3.Int('q'), 0), cmp('lt', z3.Int('q'), 300)), cmp('eq', new.ld(a[0], 'avTKE', z3.Int('q')), Rescale.mean(z3.Int('q')))))]

class InitialSpin(Contract):
    """spin of a fragment: rejection sampling from (2J+1) exp(-J(J+1)/2B^2), J integer or half-integer with the mass"""
    name = 'FissionFragments::getInitialSpin'; src = FF; opts = {'inst': ('q',)}; NS = 50; imprecise = True     # the order of the draws is a choice of the code
    B2 = z3.Real('B2'); W = z3.Function('spinWeight', I, R); S = z3.Function('spinWeightSum', I, R)
    class P(Contract):
        name = 'FissionFragments::spinParameter2'
        def frame(s, ctx, a): return []
        def ret_override(s, ctx, a, g, ret): return InitialSpin.B2
    def make(s, ctx): return [OBJ(ctx, 'FissionFragments', 'this'), z3.Int('Z'), z3.Int('A'), ARR('U', DBL, 1), ARR('spin', DBL, 1)]
    def pre(s, ctx, a, st): return [('a nucleus', cmp('gt', a[2], 0))]
    def uses(s): return [InitialSpin.P()]
    def frame(s, ctx, a): return [Loc(a[4], DBL)]
    def odd(s, a): return ite(cmp('ne', a[2] % 2, 0), F(1, 2), F(0))
    def before(s, ctx, a):
        W, S = s.W, s.S
        def weight(t): x = add(sitofp(t.arg(0)), s.odd(a)); return [t == zr(mul(add(mul(2, x), 1), m_exp(ctx, fdiv(neg(mul(x, add(x, 1))), mul(2, s.B2)))))]
        def total(t): m = t.arg(0); x = z3.simplify(m - 1); return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == S(x) + W(x))]
        ctx.rules['spinWeight'] = weight; ctx.rules['spinWeightSum'] = total
    def hooks(s, ctx, a):
        def hk(ctx, g, fr, hd, L):
            k = zi(L.k); q, S, W = z3.Int('q'), s.S, s.W; T = S(z3.IntVal(s.NS)); out = [(n + ' adds up the weights', zr(v) == S(k)) for n, v in L.reals()]
            for key, p in L.loc1():
                v = zr(L.rd(key, p, q)); out += [('weights', z3.Implies(z3.And(q >= 0, q < k), v == W(q))), ('normalised', z3.Implies(z3.And(q >= 0, q < k), v == W(q) / T)), ('to normalise', z3.Implies(z3.And(q >= k, q < s.NS), v == W(q)))]
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        J = new.ld(a[4], 0); out = [('the spin is below 50 and integer or half-integer with the mass', band(cmp('ge', J, s.odd(a)), cmp('le', J, add(F(49), s.odd(a)))))]
        if not s.verifying or len(ctx.rngs) < 2: return out + ([('two random numbers are drawn for a spin', z3.BoolVal(False))] if s.verifying else [])
        r, u = ctx.rngs[-2:]; j = z3.Int('j'); pick = band(cmp('le', sitofp(j), mul(s.NS, r)), cmp('lt', mul(s.NS, r), add(sitofp(j), 1)), cmp('ge', j, 0), cmp('lt', j, s.NS))
        return out + [('the spin is the one proposed', bimp(pick, cmp('eq', J, add(sitofp(j), s.odd(a))))), ('the spin is accepted with its weight', bimp(pick, cmp('le', u, fdiv(s.W(j), s.S(z3.IntVal(s.NS))))))]
