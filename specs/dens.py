"""Contracts for level densities and gamma-ray strength functions (levden.cpp, setup.cpp, gtrans.cpp, gdr.cpp, kcksyst.cpp)

exp, pow and log are uninterpreted functions with their sign and monotonicity rules: a postcondition that states the formula of the
documentation with them is decided by congruence.  A refutation that depends on them is never reported without a failing input."""
from contract import *
from models import m_exp, m_pow, m_sqrt, m_log
import grid
from grid import Dims, NUCLEUS
LD, SETUP, GTR, GDRC, KCK = ('libcgmf/src/%s.cpp' % x for x in ('levden', 'setup', 'gtrans', 'gdr', 'kcksyst'))
F = Fraction
def exp(x): return m_exp(None, x)
def pw(x, y): return m_pow(None, x, snap(F(y)) if isinstance(y, (str, float)) else y)
def sqrt(x): return m_sqrt(None, x)
def log(x): return m_log(None, x)
def c(x): return snap(F(x))
def prod(*xs):
    r = xs[0]
    for x in xs[1:]: r = mul(r, x)
    return r
def rmax(a, b): return ite(cmp('lt', a, b), b, a)
PARS = ('match_energy', 'shell_correct', 'temperature', 'E0', 'a', 'pairing_energy', 'spin_cutoff', 'sigma0')
class Par:
    def __init__(s, st, p):
        for m in PARS: setattr(s, m, st.ld(p, m))
# ---- the formulae of Gilbert and Cameron with Ignatyuk's shell correction
def shell(u, astar, dw, A):
    g = mul(c('0.31'), m_pow(None, A, neg_third))
    return ite(cmp('gt', u, 0), mul(astar, add(1, fdiv(mul(sub(1, exp(sub(0, mul(g, u)))), dw), u))), astar)
neg_third = snap(F(-1, 3))
def a_of(E, A, q):
    u = ite(cmp('lt', E, q.match_energy), sub(q.match_energy, q.pairing_energy), sub(E, q.pairing_energy))
    return ite(cmp('eq', q.match_energy, 0), q.a, shell(u, q.a, q.shell_correct, A))
def cutoff(u, a, A, s0):
    u = ite(cmp('lt', u, F(1, 2)), F(1, 2), u)
    return rmax(sqrt(prod(c('0.006945'), sqrt(fdiv(u, a)), m_pow(None, A, snap(F(5, 3))))), s0)
def fermi(u, a, s):
    x = fdiv(fdiv(mul(fdiv(1, mul(12, sqrt(F(2)))), exp(mul(2, sqrt(mul(a, u))))), mul(pw(a, '0.25'), pw(u, '1.25'))), s)
    return ite(cmp('lt', u, 0), F(0), x)
def const_t(E, E0, T): return fdiv(exp(fdiv(sub(E, E0), T)), T)
def cut_of(E, A, q):
    """spin cut-off parameter left behind by the level density at energy E"""
    return ite(cmp('eq', q.match_energy, 0), q.spin_cutoff, cutoff(sub(E, q.pairing_energy), a_of(E, A, q), A, q.sigma0))
def rho(E, A, q):
    ct = const_t(E, q.E0, q.temperature)
    u = sub(E, q.pairing_energy)
    return ite(bor(cmp('eq', q.match_energy, 0), cmp('lt', E, q.match_energy)), ct, fermi(u, a_of(E, A, q), cut_of(E, A, q)))
def spin_dist(j, sc, s0):
    s = rmax(sc, s0); x = add(j, F(1, 2))
    r = fdiv(mul(x, exp(fdiv(sub(0, mul(x, x)), mul(2, mul(s, s))))), mul(s, s))
    return ite(cmp('lt', r, c('1e-10')), F(0), r)
def physical(q, E=None):
    out = [('the temperature is positive', cmp('gt', q.temperature, 0)), ('the spin cut-off of the levels is positive', cmp('gt', q.sigma0, 0))]
    return out

class DensPar(Contract):
    """level density parameter at energy E"""
    name = 'ldDensityParameter'; src = LD
    def make(s, ctx): return [z3.Real('E'), z3.Real('A'), OBJ(ctx, 'LevelDensity', 'ldp')]
    def ret_override(s, ctx, a, g, ret): return a_of(a[0], a[1], Par(State(ctx, g), a[2]))
    def post(s, ctx, a, old, new, ret): return [('the level density parameter is that of the energy, or of the matching energy below it', cmp('eq', ret, a_of(a[0], a[1], Par(old, a[2]))))] if s.verifying else []
class LevDens(Contract):
    """level density at energy E"""
    name = 'ldLevelDensity'; src = LD
    def make(s, ctx): return [z3.Real('E'), z3.Real('A'), OBJ(ctx, 'LevelDensity', 'ldp')]
    def uses(s): return [DensPar()]
    def frame(s, ctx, a): return [Loc(s.entry(ctx).at(a[2], 'spin_cutoff'), DBL)] if s.verifying else []
    def at_call(s, ctx, a, g, ins):
        q = Par(State(ctx, g), a[2])
        v = cut_of(a[0], a[1], q)
        if not (is_z(v) and is_z(q.spin_cutoff) and v.eq(q.spin_cutoff)): ctx.store(State(ctx, g).at(a[2], 'spin_cutoff'), v, DBL, g)
        return rho(a[0], a[1], q), g
    def post(s, ctx, a, old, new, ret):
        q = Par(old, a[2]); E, A = a[0], a[1]
        return [('constant temperature below the matching energy', bimp(bor(cmp('eq', q.match_energy, 0), cmp('lt', E, q.match_energy)), cmp('eq', ret, const_t(E, q.E0, q.temperature)))),
                ('Fermi gas from the matching energy on', bimp(band(cmp('ne', q.match_energy, 0), cmp('ge', E, q.match_energy)), cmp('eq', ret, rho(E, A, q)))),
                ('the spin cut-off is that of the energy', cmp('eq', new.ld(a[2], 'spin_cutoff'), cut_of(E, A, q))),
                ('the level density is not negative', bimp(band(cmp('gt', q.temperature, 0), cmp('gt', q.sigma0, 0), cmp('ne', E, q.pairing_energy), cmp('gt', a_of(E, A, q), 0)), cmp('ge', ret, 0)))]
class SpinDist(Contract):
    name = 'ldSpinDistribution'; src = LD
    def make(s, ctx): return [z3.Real('j'), z3.Real('sc'), z3.Real('sc0')]
    def at_call(s, ctx, a, g, ins): return spin_dist(*a), g
    def post(s, ctx, a, old, new, ret):
        return [('the spin distribution is Gaussian with the larger of the two cut-offs', cmp('eq', ret, spin_dist(*a))),
                ('probabilities are not negative', bimp(cmp('ge', a[0], F(-1, 2)), cmp('ge', ret, 0)))]
class ParityDist(Contract):
    name = 'ldParityDistribution'; src = LD
    def make(s, ctx): return [z3.Int('p')]
    def at_call(s, ctx, a, g, ins): return F(1, 2), g
    def post(s, ctx, a, old, new, ret): return [('both parities are equally likely', cmp('eq', ret, F(1, 2)))]

LS = z3.Function('spinSquares', I, R)
class LevelCutoff(Contract):
    """spin cut-off of the discrete levels: root of the mean of J(J+1)/2"""
    name = 'ldLevelSpinCutoff'; src = LD
    def make(s, ctx): return [z3.Int('n'), OBJ(ctx, 'Level', 'lev', Dims(ctx).NLEV)]
    def pre(s, ctx, a, st): return [('the levels exist', cmp('le', a[0], Dims(ctx).NLEV))]
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq)
        def rule(t):
            m = t.arg(0); x = z3.simplify(m - 1); j = zr(st.ld(a[1], x, 'spin', et=find_struct(ctx, 'Level')))
            return [z3.Implies(m <= 0, t == 0), z3.Implies(m > 0, t == LS(x) + j * (j + 1))]
        ctx.rules['spinSquares'] = rule
    def hooks(s, ctx, a):
        def hk(ctx, g, fr, hd, L):
            n = zi(a[0]); out = [(m + ' sum of J(J+1)', zr(v) == LS(zi(L.k))) for m, v in L.reals()]
            for m, v in L.reals():
                for q, i in L.ints(): out += [('%s sum up to %s' % (m, q), zr(v) == LS(zi(i))), ('%s sum from %s on' % (m, q), zr(v) + LS(zi(i)) == LS(n)), ('%s sum after %s' % (m, q), zr(v) + LS(zi(i) + 1) == LS(n))]
            return out + [(q + ' not above n', zi(i) <= n) for q, i in L.ints()]
        return [hk]
    def post(s, ctx, a, old, new, ret):
        if not s.verifying: return [('not negative', cmp('ge', ret, 0))]
        return [('no cut-off from a single level', bimp(cmp('le', a[0], 1), cmp('eq', ret, 0))),
                ('the cut-off is that of the levels', bimp(cmp('gt', a[0], 1), cmp('eq', ret, sqrt(fdiv(LS(zi(a[0])), mul(2, zr(a[0])))))))]

SH, FG, SC, CT = (z3.Function(n, *[R] * k) for n, k in (('shellCorrected', 5), ('fermiGas', 4), ('spinCutoff', 5), ('constTemperature', 4)))
class Formula(Contract):
    """one of the formulae: verified against its definition, an abstract function for its callers"""
    src = LD; uf = None; formula = None
    def at_call(s, ctx, a, g, ins): return type(s).uf(*[zr(x) for x in a]), g
    def make(s, ctx): return [z3.Real('x%d' % i) for i in range(type(s).uf.arity())]
    def post(s, ctx, a, old, new, ret): return [('the value is that of the formula', cmp('eq', ret, type(s).formula(*a)))]
class Shell(Formula): name = 'ldShellCorrection'; uf = SH; formula = shell
class Fermi(Formula): name = 'ldFermiGas'; uf = FG; formula = fermi
class Cutoff(Formula): name = 'ldSpinCutoff'; uf = SC; formula = cutoff
class ConstT(Formula): name = 'ldConstantTemperature'; uf = CT; formula = const_t
class TGconnect(Contract):
    """joins the two forms of the level density"""
    name = 'ldTGconnect'; src = LD
    def make(s, ctx): return [z3.Real('A'), z3.Real('elev'), z3.Real('nlev'), OBJ(ctx, 'LevelDensity', 'ldp')]
    def uses(s): return [Shell(), Fermi(), Cutoff(), ConstT()]
    def frame(s, ctx, a):
        st = s.entry(ctx); return [Loc(st.at(a[3], m), DBL) for m in ('temperature', 'E0', 'match_energy')]
    def pre(s, ctx, a, st):
        q = Par(st, a[3]); return [('the level density parameter is positive', cmp('gt', SH(zr(sub(a[1], q.pairing_energy)), zr(q.a), zr(q.shell_correct), zr(a[0])), 0))]
    def hooks(s, ctx, a):
        def hk(ctx, g, fr, hd, L): return [(m + ' is positive', zr(v) > 0) for m, v in L.reals()]
        return [hk]
    def post(s, ctx, a, old, new, ret):
        A, lve, lvn, p = a; o, n = Par(old, p), Par(new, p)
        few = cmp('le', lvn, 2); T, Ex = n.temperature, n.match_energy
        ok = band(bnot(few), cmp('ne', Ex, 0))
        ux = sub(Ex, o.pairing_energy); lvu = sub(lve, o.pairing_energy)
        aa = SH(zr(rmax(lvu, ux)), zr(o.a), zr(o.shell_correct), zr(A))
        out = [('few levels leave the parameters', bimp(few, band(*[cmp('eq', getattr(n, m), getattr(o, m)) for m in ('temperature', 'E0', 'match_energy')]))),
               ('a failed connection is marked', bimp(band(bnot(few), cmp('eq', Ex, 0)), band(cmp('eq', T, 0), cmp('eq', n.E0, 0)))),
               ('the temperature is not negative', bimp(bnot(few), cmp('ge', T, 0)))]
        if s.verifying:
            rh = FG(zr(ux), aa, SC(zr(ux), aa, zr(A), zr(o.sigma0)))
            out += [('the temperature is that of the Fermi gas at the matching energy', bimp(ok, cmp('eq', T, fdiv(1, sub(sqrt(fdiv(aa, ux)), fdiv(3, mul(2, ux))))))),
               ('the discrete levels are counted', bimp(ok, cmp('eq', n.E0, mul(T, log(fdiv(sub(exp(fdiv(lve, T)), 1), lvn)))))),
               ('the densities agree at the matching energy', bimp(ok, cmp('le', absr(sub(n.E0, sub(Ex, mul(T, log(mul(T, rh)))))), c('1e-6'))))]
        return out
def absr(x): return ite(cmp('ge', x, 0), x, sub(0, x))

class SetupDensity(Contract):
    """the table of level densities of the continuum bins"""
    name = 'statSetupLevelDensity'; src = SETUP; bound = ('kk', 'jj'); matched = None
    def make(s, ctx):
        p = OBJ(ctx, 'LevelDensity', 'ldp')
        if not s.matched: ctx.store(State(ctx, Guard()).at(p, 'match_energy'), F(0), DBL, Guard())
        return [NUCLEUS(ctx), p]
    def case(s, ctx, a): return cmp('ne', State(ctx, Guard()).ld(a[1], 'match_energy'), 0) if s.matched else True
    def uses(s): return [LevDens(), SpinDist(), ParityDist()]
    def pre(s, ctx, a, st):
        d = Dims(ctx); nc = st.ld(a[0], 'ncont')
        return d.pre() + [('the bins fit the table', cmp('lt', nc, d.NB))]
    def frame(s, ctx, a):
        st = s.entry(ctx)
        return [Loc(st.at(a[0], 'density', 0, 0), find_struct(ctx, 'Parity'), 'rows'), Loc(st.at(a[1], 'spin_cutoff'), DBL)]
    def post(s, ctx, a, old, new, ret):
        n, p = a; k, j = z3.Int('kk'), z3.Int('jj'); d = Dims(ctx)
        q = Par(old, p); A = sitofp(old.ld(n, 'za', 'A')); E = old.ld(n, 'excitation', k)
        inn = band(cmp('ge', k, 0), cmp('le', k, old.ld(n, 'ncont')), cmp('ge', j, 0), cmp('lt', j, d.MJ))
        sp = old.ld(n, 'lev', 0, 'spin')
        hi = cmp('eq', srem(ctx.cast('fptosi', DBL, add(mul(sp, 2), F(1, 1000)), I32), 2), 1)
        J = add(sitofp(j), ite(hi, F(1, 2), F(0)))
        want = prod(rho(E, A, q), spin_dist(J, cut_of(E, A, q), q.sigma0), F(1, 2))
        return [('the density of %s states' % m, bimp(inn, cmp('eq', new.ld(n, 'density', k, j, m), want))) for m in ('even', 'odd')] if s.verifying else []
class SetupDensity0(SetupDensity):
    """.. when the whole density has constant temperature (no matching energy)"""
    matched = False
class SetupDensity1(SetupDensity): matched = True
def sitofp(x): return unz(z3.ToReal(zi(x))) if is_z(x) else Fraction(x)

# ------------------------------------------------------------------ gamma-ray strength functions
E1, M1, E2 = 0, 1, 2; SL, GL = 0, 1; PI = '3.14159265358979323846'
def lit(x):
    import models
    return models.strlit(x)
class Res:
    """giant resonance i of the array at p"""
    def __init__(s, ctx, st, p, i):
        import models
        G = find_struct(ctx, 'GDR'); q = st.at(p, i, et=G) if i is not None else p
        s.xl = models.strget(ctx, st.at(q, 'XL'), st.g) if st.seq is None else strget_at(ctx, st, st.at(q, 'XL'))
        s.energy, s.width, s.sigma = (st.ld(q, m) for m in ('energy', 'width', 'sigma'))
def strget_at(ctx, st, p):
    import models
    r, shape, idx = models.strcell(ctx, p)
    return ctx.read(r, shape, idx, INT(64), st.g, st.seq)
def lorentz(eg, er, w):
    d = sub(mul(er, er), mul(eg, eg))
    return ite(band(cmp('eq', er, eg), cmp('eq', mul(eg, w), 0)), F(0), fdiv(mul(eg, w), add(mul(d, d), prod(eg, eg, w, w))))
def tgamma(eg, er, w, t):
    return ite(cmp('eq', er, 0), F(0), fdiv(mul(w, add(mul(eg, eg), prod(4, c(PI), c(PI), mul(t, t)))), mul(er, er)))
def base_strength(l, eg, r): return prod(fdiv(c('26e-8'), 2 * l + 1), r.sigma, r.width, m_pow(None, eg, F(2 - 2 * l)))
def strength(prof, l, eg, r, a, ex):
    """Brink-Axel (SL) and Kopecky-Uhl (GL) strength functions"""
    if prof == SL: return mul(base_strength(l, eg, r), lorentz(eg, r.energy, r.width))
    t = ite(cmp('lt', ex, 0), F(0), sqrt(fdiv(ex, a)))
    if l != 1: return mul(base_strength(l, eg, r), lorentz(eg, r.energy, r.width))
    return mul(base_strength(l, eg, r), add(lorentz(eg, r.energy, tgamma(eg, r.energy, r.width, t)), fdiv(mul(c('0.7'), tgamma(F(0), r.energy, r.width, t)), prod(r.energy, r.energy, r.energy))))
SF = z3.Function('gammaStrength', I, I, *[R] * 7)        # gammaStrength(profile,l,eg,energy,width,sigma,a,ex)
def positive_strength(t):
    prof, l, eg, e, w, sg, a, ex = [t.arg(i) for i in range(8)]
    return z3.Implies(z3.And(eg > 0, e > 0, w >= 0, sg >= 0, z3.Or(a > 0, ex <= 0)), z3.And(t >= 0, z3.Implies(z3.And(w > 0, sg > 0), t > 0)))
def sf(prof, l, eg, r, a, ex): return SF(z3.IntVal(prof), z3.IntVal(l), zr(eg), zr(r.energy), zr(r.width), zr(r.sigma), zr(a if prof == GL else F(0)), zr(ex if prof == GL else F(0)))
class Strength(Contract):
    """strength function of one resonance: verified against its formula, an abstract non-negative function for its callers"""
    src = GTR; prof = l = None
    name = 'gdrGeneralizedLorentzian'; rules = {'gammaStrength': positive_strength}
    def make(s, ctx): return [s.l, z3.Real('eg'), OBJ(ctx, 'GDR', 'res')] + ([z3.Real('a'), z3.Real('ex')] if s.prof == GL else [])
    def at_call(s, ctx, a, g, ins):
        if not isinstance(a[0], int) or a[0] not in (1, 2): raise Unsupported('multipolarity')
        return sf(s.prof, a[0], a[1], Res(ctx, State(ctx, g), a[2], None), *(a[3:] if s.prof == GL else (0, 0))), g
    def post(s, ctx, a, old, new, ret):
        r = Res(ctx, old, a[2], None); x = a[3:] if s.prof == GL else (F(1), F(0))
        return [('the strength is that of the formula', cmp('eq', ret, strength(s.prof, s.l, a[1], r, *x))),
                ('the strength is not negative', bimp(band(cmp('gt', a[1], 0), cmp('gt', r.energy, 0), cmp('ge', r.width, 0), cmp('ge', r.sigma, 0), bor(cmp('gt', x[0], 0), cmp('le', x[1], 0))), band(cmp('ge', ret, 0), bimp(band(cmp('gt', r.width, 0), cmp('gt', r.sigma, 0)), cmp('gt', ret, 0)))))]
class StrengthGL(Strength): prof, l = GL, 1
class StrengthSL(Strength): name = 'gdrStandardLorentzian'; prof, l = SL, 1
class StrengthSL2(StrengthSL): l = 2
def gtrans(ctx): return next(k for k in ctx.prog.mods if 'gtrans' in k)
def table(ctx): return Ptr(ctx.gl('gdr', gtrans(ctx)), (0, 0)), Ptr(ctx.gl('ngdr', gtrans(ctx)), (0,))
MAXG = 6
class GammaTrans(Contract):
    name = 'gdrGammaTransmission'; src = GTR; prof = l = mult = None; opts = {'sym_unroll': 6}
    def uses(s): return [StrengthGL(), StrengthSL()]
    def make(s, ctx): return [s.prof, s.l, z3.Real('eg'), s.mult, z3.Real('a'), z3.Real('ex')]
    def pre(s, ctx, a, st):
        t, n = table(ctx); nn = st.ld(n)
        out = [('the resonances fit the table', band(cmp('ge', nn, 0), cmp('le', nn, MAXG))), ('the level density parameter is positive', bor(cmp('gt', a[4], 0), cmp('le', a[5], 0))), ('the photon energy is positive', cmp('gt', a[2], 0))]
        for i in range(MAXG):
            r = Res(ctx, st, t, i); out.append(('resonances have positive energy and no negative width or cross section', bimp(cmp('lt', i, nn), band(cmp('gt', r.energy, 0), cmp('ge', r.width, 0), cmp('ge', r.sigma, 0)))))
        return out
    def post(s, ctx, a, old, new, ret):
        t, n = table(ctx); nn = old.ld(n); tot = F(0); xl = lit(('E1', 'M1', 'E2')[s.mult])
        for i in range(MAXG):
            r = Res(ctx, old, t, i)
            tot = add(tot, ite(band(cmp('lt', i, nn), cmp('eq', r.xl, xl)), sf(s.prof, s.l, a[2], r, a[4], a[5]), F(0)))
        return [('the transmission is that of the resonances of its multipolarity', cmp('eq', ret, prod(tot, 2, c(PI), m_pow(None, a[2], F(2 * s.l + 1)), c('3.14035')))),
                ('the transmission is not negative', cmp('ge', ret, 0))]
class GammaE1(GammaTrans): prof, l, mult = GL, 1, E1
class GammaM1(GammaTrans): prof, l, mult = SL, 1, M1
class GammaE2(GammaTrans): prof, l, mult = SL, 2, E2

class R_:
    def __init__(s, xl, energy, width, sigma): s.xl, s.energy, s.width, s.sigma = xl, energy, width, sigma
def third(A): return m_pow(None, A, snap(F(1, 3)))
def resonances(A, Z, beta, deformed):
    """the systematics of the giant resonances"""
    if not deformed:
        e = mul(add(c('49.336'), mul(c('7.34'), beta)), pw(A, '-0.2409')); w = mul(c('0.3'), e)
        out = [R_('E1', e, w, fdiv(mul(c('10.6'), A), w))]
    else:
        e0 = pw(A, '-0.232'); out = []
        for e, w0, w1, sg in ((prod(50, e0, exp(mul(c('-0.946'), beta))), '0.282', '0.263', '3.48'), (mul(50, e0), '0.35', '0.14', '8.26')):
            w = mul(sub(c(w0), mul(c(w1), beta)), e); out.append(R_('E1', e, w, fdiv(mul(c(sg), A), w)))
    out.append(R_('M1', fdiv(41, third(A)), F(4), F(1)))
    a3 = fdiv(1, third(A)); e = mul(63, a3); w = sub(c('6.11'), mul(c('0.012'), A))
    out.append(R_('E2', e, w, fdiv(prod(c('1.5e-4'), Z, Z, e, e, a3), w)))
    return out
class SetupGdr(Contract):
    """giant resonance parameters of a nucleus"""
    name = 'statSetupGdrParameter'; src = SETUP; deformed = False
    def make(s, ctx): return [NUCLEUS(ctx), z3.Real('a'), OBJ(ctx, 'GDR', 'gdr', MAXG), z3.Real('beta') if s.deformed else F(0)]
    def uses(s): return [StrengthGL(), StrengthSL()]
    def pre(s, ctx, a, st):
        Z, A = st.ld(a[0], 'za', 'Z'), st.ld(a[0], 'za', 'A')
        return [('the nucleus has a charge and a mass', band(cmp('ge', Z, 1), cmp('ge', A, 1), cmp('le', A, 500))), ('the level density parameter is positive', cmp('gt', a[1], 0)), ('deformation', band(cmp('gt', a[3], -1), cmp('lt', a[3], 1)))]
    def case(s, ctx, a): return cmp('ne', a[3], 0) if s.deformed else True
    def frame(s, ctx, a):
        t, n = table(ctx); G = find_struct(ctx, 'GDR'); return [Loc(a[2], G, 'all'), Loc(Ptr(t.r, (0, 0)), G, 'all'), Loc(n, I32)]
    def post(s, ctx, a, old, new, ret):
        if not s.verifying: return []
        t, n = table(ctx); Z, A = sitofp(old.ld(a[0], 'za', 'Z')), sitofp(old.ld(a[0], 'za', 'A'))
        want = resonances(A, Z, a[3], s.deformed); out = [('the number of resonances', cmp('eq', new.ld(n), len(want)))]
        m1 = want[-2]; fe = F(0)
        for r in want[:-2]: fe = add(fe, sf(GL, 1, F(7), r, a[1], F(0)))
        m1.sigma = fdiv(prod(c('17.01'), pw(A, '-0.878'), fe), sf(SL, 1, F(7), m1, 0, 0))
        for i, r in enumerate(want):
            x = Res(ctx, new, t, i)
            for m in ('energy', 'width', 'sigma'): out.append(('resonance %d (%s): %s' % (i, r.xl, m), cmp('eq', getattr(x, m), getattr(r, m))))
            out.append(('resonance %d: multipolarity' % i, cmp('eq', x.xl, lit(r.xl))))
            out.append(('resonance %d is physical' % i, band(cmp('gt', x.energy, 0), cmp('ge', x.width, 0), cmp('ge', x.sigma, 0))))
        return out
class SetupGdrDeformed(SetupGdr): deformed = True

# ------------------------------------------------------------------ parameters of a nucleus
KN = 130331
def kcktab(ctx): return Ptr(ctx.gl('kcksyst', next(k for k in ctx.prog.mods if 'kcksyst' in k)), (0, 0))
class KckData(Contract):
    """level density parameters of a nucleus: its own entry of the table, or the run is stopped"""
    name = 'getkcksystdat'; src = KCK
    cols = ('pairing_energy', 'shell_correct', 'match_energy', 'a', 'temperature', 'E0')
    def make(s, ctx): return [OBJ(ctx, 'ZAnumber', 'za'), OBJ(ctx, 'LevelDensity', 'ldp')]
    def zaid(s, st, a): return add(mul(1000, st.ld(a[0], 'Z')), st.ld(a[0], 'A'))
    def pre(s, ctx, a, st):
        z = s.zaid(st, a); return [('the nucleus lies within the table', band(cmp('ge', z, 0), cmp('lt', z, KN)))]
    def entry_(s, ctx, st, a, j): return st.ld(Ptr(kcktab(ctx).r, (0, s.zaid(st, a), j)), ty=DBL)
    def frame(s, ctx, a):
        st = s.entry(ctx); return [Loc(st.at(a[1], m), DBL) for m in s.cols]
    def post(s, ctx, a, old, new, ret):
        return [('%s is that of the nucleus' % m, cmp('eq', new.ld(a[1], m), s.entry_(ctx, old, a, j))) for j, m in enumerate(s.cols)] + [('only nuclei with an entry are accepted', cmp('ne', s.entry_(ctx, old, a, 1), 0))]
    def exits(s, ctx, a, old): return [('the run is stopped for a nucleus without an entry only', cmp('eq', s.entry_(ctx, old, a, 1), 0))]

class Textrapolate(Contract):
    """Fermi gas parameter from a given temperature"""
    name = 'ldTextrapolate'; src = LD
    def make(s, ctx): return [z3.Real('A'), z3.Real('elev'), OBJ(ctx, 'LevelDensity', 'ldp')]
    def uses(s): return [Shell(), Fermi(), Cutoff(), ConstT()]
    def frame(s, ctx, a):
        st = s.entry(ctx); return [Loc(st.at(a[2], m), DBL) for m in ('a', 'match_energy')]
    def post(s, ctx, a, old, new, ret):
        A, lve, p = a; o, n = Par(old, p), Par(new, p); Ex = n.match_energy; ux = sub(Ex, o.pairing_energy)
        if not s.verifying: return []
        con = cmp('ne', n.a, o.a); U = z3.Real('U'); con = band(con, cmp('eq', U, ux))
        t = add(fdiv(1, o.temperature), fdiv(F(3, 2), U)); aa = prod(t, t, U); al = z3.Real('aM'); con = band(con, cmp('eq', al, aa))
        rh = FG(U, al, SC(U, al, zr(A), zr(o.sigma0)))
        return [('the level density parameter is that of the temperature at the matching energy', bimp(con, cmp('eq', n.a, fdiv(al, SH(U, z3.RealVal(1), zr(o.shell_correct), zr(A)))))),
                ('the densities agree at the matching energy', bimp(con, cmp('le', absr(sub(CT(zr(Ex), zr(o.E0), zr(o.temperature)), rh)), c('1e-6')))),
                ('a matching energy comes with its level density parameter', bor(cmp('eq', Ex, 0), cmp('eq', Ex, o.match_energy), cmp('eq', n.a, fdiv(al, SH(U, z3.RealVal(1), zr(o.shell_correct), zr(A)))), bnot(band(cmp('eq', U, ux), cmp('eq', al, aa)))))]
class SetupPar(Contract):
    """level density parameters and level densities of a nucleus"""
    name = 'statSetupLevelDensityParameter'; src = SETUP
    def make(s, ctx): return [NUCLEUS(ctx), OBJ(ctx, 'LevelDensity', 'ldp')]
    def uses(s): return [KckData(), LevelCutoff(), TGconnectA(), Textrapolate(), SetupDensity()]
    def pre(s, ctx, a, st):
        d = Dims(ctx); nd = st.ld(a[0], 'ndisc'); z = add(mul(1000, st.ld(a[0], 'za', 'Z')), st.ld(a[0], 'za', 'A'))
        return d.pre() + [('there are discrete levels', band(cmp('ge', nd, 1), cmp('le', nd, d.NLEV))), ('the bins fit the table', cmp('lt', st.ld(a[0], 'ncont'), d.NB)), ('the nucleus lies within the table', band(cmp('ge', st.ld(a[0], 'za', 'Z'), 0), cmp('ge', st.ld(a[0], 'za', 'A'), 1), cmp('lt', z, KN)))]
    def frame(s, ctx, a):
        st = s.entry(ctx); return [Loc(st.at(a[0], 'density', 0, 0), find_struct(ctx, 'Parity'), 'rows'), Loc(a[1], find_struct(ctx, 'LevelDensity'))]
    def post(s, ctx, a, old, new, ret):
        if not s.verifying: return []
        n, p = a; q = Par(new, p); A = sitofp(old.ld(n, 'za', 'A')); z = add(mul(1000, old.ld(n, 'za', 'Z')), old.ld(n, 'za', 'A'))
        T = lambda j: old.ld(Ptr(kcktab(ctx).r, (0, z, j)), ty=DBL)
        return [('the pairing energy is that of the nucleus', cmp('eq', q.pairing_energy, T(0))), ('the shell correction is that of the nucleus', cmp('eq', q.shell_correct, T(1))),
                ('the spin cut-off of the levels is positive', cmp('gt', q.sigma0, 0))]
class TGconnectA(TGconnect):
    """as seen by the set-up: that the level density parameter is positive for the tabulated shell corrections is a fact about the table (checked exhaustively by the replay)"""
    def pre(s, ctx, a, st): return []
