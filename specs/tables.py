"""Contracts for the tables of nuclear data: masses, deformations, temperatures, level density parameters, spin scaling, anisotropy
(masstable.cpp, FissionFragments.cpp).  The contents of the tables are arbitrary: what is proved is that every nucleus gets its own entry."""
import ir
from contract import *
from dens import sitofp
from models import m_exp, m_pow
FF, MT = 'libcgmf/src/FissionFragments.cpp', 'libcgmf/src/masstable.cpp'
F = Fraction; I8 = INT(8)
ANI = ir.T('array', n=8, el=ir.T('array', n=202, el=DBL))
NZ, NG = 140000, 32                              # MAX_ZAID, NUM_GRID
def TAB(ctx, name, *ix, mod='FissionFragments'):
    return Ptr(ctx.gl(name, next(k for k in ctx.prog.mods if mod in k)), (0,) + ix)
def entry(ctx, st, name, *ix, ty=DBL, mod='FissionFragments'): return st.ld(TAB(ctx, name, *ix, mod=mod), ty=ty)
def inside(z): return [('the nucleus lies within the tables', band(cmp('ge', z, 0), cmp('lt', z, NZ)))]

class MassExcessTable(Contract):
    """mass excess: the entry of the nucleus, found whatever its position; without an entry the run is stopped"""
    name = 'mass_excess'; src = MT
    N = 9073
    def make(s, ctx): return list(z3.Ints('Z A'))
    def pre(s, ctx, a, st): return [('a nucleus', band(cmp('ge', a[0], 0), cmp('le', a[0], 140), cmp('ge', a[1], 0), cmp('lt', a[1], 1000)))]
    def cell(s, ctx, st, i, m): return st.ld(TAB(ctx, 'MassTable', mod='masstable'), i, m, et=find_struct(ctx, 'MassExcess'))
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq); za = add(mul(1000, a[0]), a[1]); w = z3.Int('w')
        za_of = zi(s.cell(ctx, st, w, 'za'))
        # the table has one entry for a nucleus (checked by the replay): position w, or none if w is outside the table
        ctx.rules[za_of.decl().name()] = lambda t: z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < s.N), (t == zi(za)) == (t.arg(0) == w))
    def hooks(s, ctx, a):
        w = z3.Int('w')
        def hk(ctx, g, fr, hd, L): return [('not passed', z3.Or(w < 0, w >= s.N, zi(L.k) <= w))] + [('%s not passed' % n, z3.Or(w < 0, w >= s.N, zi(v) <= w)) for n, v in L.ints()]
        return [hk]
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret):
        if not s.verifying: return []
        w = z3.Int('w'); inn = band(cmp('ge', w, 0), cmp('lt', w, s.N))
        return [('the mass excess is that of the nucleus', bimp(inn, cmp('eq', ret, s.cell(ctx, old, w, 'mass')))), ('only nuclei with an entry are accepted', inn)]
    def exits(s, ctx, a, old): w = z3.Int('w'); return [('the run is stopped for a nucleus without an entry only', bor(cmp('lt', w, 0), cmp('ge', w, s.N)))]

class MassExcessFile(Contract):
    """mass excess of the table that was read from the data file"""
    name = 'getMassExcess'; src = FF
    def make(s, ctx): return [z3.Int('zaid')]
    def pre(s, ctx, a, st): return inside(a[0])
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret):
        e = entry(ctx, old, 'masses', a[0]); return [('the mass excess is that of the nucleus', cmp('eq', ret, e)), ('only nuclei with an entry are accepted', cmp('ne', e, 0))]
    def exits(s, ctx, a, old): return [('the run is stopped for a nucleus without an entry only', cmp('eq', entry(ctx, old, 'masses', a[0]), 0))]

class Deformation(Contract):
    """deformation of a nucleus; 0.2 if it is missing, and then from then on"""
    name = 'getDeformation'; src = FF
    def make(s, ctx): return [z3.Int('zaid')]
    def pre(s, ctx, a, st): return inside(a[0])
    def frame(s, ctx, a): return [Loc(TAB(ctx, 'beta2', a[0]), DBL)]
    def post(s, ctx, a, old, new, ret):
        e = entry(ctx, old, 'beta2', a[0]); w = ite(cmp('eq', e, -100), snap(F('0.2')), e)
        return [('the deformation is that of the nucleus, or the default', cmp('eq', ret, w)), ('a missing deformation is set to the default, others are kept', cmp('eq', entry(ctx, new, 'beta2', a[0]), w))]

def ascending(g): return [('the energy grid ascends at %d' % i, cmp('lt', g(i), g(i + 1))) for i in range(NG - 1)]
def encloses(g, i, x): return band(cmp('le', g(i), x), bor(cmp('eq', i, NG - 2), cmp('lt', x, g(add(i, 1)))))
class FindIndex(Contract):
    """the interval of an ascending grid that holds x (the first or last one outside the grid)"""
    name = 'int findEnergyIndex<32>'; src = FF
    def make(s, ctx): return [z3.Real('x'), TAB(ctx, 'temperatureEnergyGrid')]
    def g(s, st, a): return lambda i: st.ld(Ptr(a[1].r, a[1].path[:1] + (i,)), ty=DBL)
    def pre(s, ctx, a, st): return ascending(s.g(st, a)) + [('x is not below the grid', cmp('ge', a[0], s.g(st, a)(0)))] if s.verifying else []
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret):
        g = s.g(old, a); out = [('the interval exists', band(cmp('ge', ret, 0), cmp('le', ret, NG - 2)))]
        if s.verifying: return out + [('interval %d is found' % i, bimp(encloses(g, i, a[0]), cmp('eq', ret, i))) for i in range(NG - 1)]
        i = z3.Int('i'); return out + [('the interval that holds x', bimp(band(cmp('ge', i, 0), cmp('le', i, NG - 2), encloses(g, i, a[0])), cmp('eq', ret, i)))]
class Interpolated(Contract):
    """a quantity tabulated over excitation energy"""
    src = FF; tab = None
    def make(s, ctx): return [z3.Int('zaid'), z3.Real('energy')]
    def uses(s): return [FindIndex()]
    def g(s, ctx, st): return lambda i: entry(ctx, st, 'temperatureEnergyGrid', i)
    def t(s, ctx, st, a, i): return entry(ctx, st, s.tab, a[0], i)
    def pre(s, ctx, a, st): return inside(a[0]) + ascending(s.g(ctx, st)) + [('the energy is not below the grid', cmp('ge', a[1], s.g(ctx, st)(0)))]
    def frame(s, ctx, a): return [Loc(TAB(ctx, s.tab, a[0], 0), DBL, NG)]
    def val(s, ctx, st, a, i): return ite(cmp('eq', s.t(ctx, st, a, 0), 0), F(5), s.t(ctx, st, a, i))
    def post(s, ctx, a, old, new, ret):
        i = z3.Int('i'); g = s.g(ctx, old); inn = band(cmp('ge', i, 0), cmp('le', i, NG - 2)); e1, e2 = g(i), g(add(i, 1)); v1, v2 = s.val(ctx, old, a, i), s.val(ctx, old, a, add(i, 1))
        return [('the value is interpolated between the entries of the nucleus at the grid points around the energy', bimp(band(inn, cmp('lt', e1, e2), encloses(g, i, a[1])), cmp('eq', mul(sub(ret, v1), sub(e2, e1)), mul(sub(a[1], e1), sub(v2, v1))))),
                ('the entries of the nucleus are kept, or set to the default', bimp(band(cmp('ge', i, 0), cmp('lt', i, NG)), cmp('eq', s.t(ctx, new, a, i), s.val(ctx, old, a, i))))]
class Temperature(Interpolated): name = 'getTemperature'; tab = 'temperatures'
class LevelDensPar(Interpolated): name = 'getLDP'; tab = 'ldp2'

class SpinPar(Contract):
    """spin cut-off parameter of a fragment: rigid-body moment of inertia of its own deformation times its own temperature"""
    name = 'FissionFragments::spinParameter2'; src = FF
    TMP = z3.Function('temperatureOf', I, R, R)
    class T(Contract):
        name = 'getTemperature'
        def frame(s, ctx, a): return [Loc(TAB(ctx, 'temperatures', a[0], 0), DBL, NG)]
        def pre(s, ctx, a, st): return inside(a[0])
        def ret_override(s, ctx, a, g, ret): return SpinPar.TMP(zi(a[0]), zr(a[1]))
    def make(s, ctx): return [OBJ(ctx, 'FissionFragments', 'this'), z3.Real('U'), z3.Int('A'), z3.Int('Z')]
    def pre(s, ctx, a, st): return [('a nucleus', band(cmp('ge', a[3], 0), cmp('lt', a[3], 139), cmp('ge', a[2], 1), cmp('lt', a[2], 1000)))]
    def uses(s): return [Deformation(), SpinPar.T()]
    def frame(s, ctx, a): z = add(mul(1000, a[3]), a[2]); return [Loc(TAB(ctx, 'beta2', z), DBL), Loc(TAB(ctx, 'temperatures', z, 0), DBL, NG)]
    def post(s, ctx, a, old, new, ret):
        z = add(mul(1000, a[3]), a[2]); e = entry(ctx, old, 'beta2', z); b = ite(cmp('eq', e, -100), snap(F('0.2')), e)
        c = lambda x: snap(F(x)); pr = lambda *x: x[0] if len(x) == 1 else mul(pr(*x[:-1]), x[-1])
        I0 = pr(c('0.4'), m_pow(None, sitofp(a[2]), snap(F(5, 3))), c('1.2'), c('1.2'), F(1, 2), snap(F('1.00866491578') + F('1.00727646688')), c('931.494013'))
        shape = add(add(1, mul(c('0.31'), b)), mul(c('0.44'), mul(b, b)))
        h = snap(F(6.58211889e-16 * 299792458.0 * 1e9)); T = SpinPar.TMP(zi(z), zr(a[1]))
        return [('the spin parameter is alpha I T / hbar^2 of the nucleus', cmp('eq', ret, fdiv(fdiv(pr(I0, shape, old.ld(a[0], 'alphaI'), T), h), h)))]

NA = 15
class SpinScaling(Contract):
    """spin scaling coefficients of a reaction: its own line of the table, or unchanged"""
    name = 'FissionFragments::getSpinScalingCoefficients'; src = FF; opts = {'sym_unroll': 16}
    def make(s, ctx): return [OBJ(ctx, 'FissionFragments', 'this'), z3.Int('zaid0'), z3.Bool('sf'), ARR('alpha0', DBL, 1), ARR('slope', DBL, 1)]
    def frame(s, ctx, a): return [Loc(a[3], DBL), Loc(a[4], DBL)]
    def key(s, ctx, st, i): return ctx.cast('fptosi', DBL, entry(ctx, st, 'alpha_coefficients', i, 0), I32)
    def post(s, ctx, a, old, new, ret):
        z = ite(a[2], sub(0, a[1]), a[1]) if not isinstance(a[2], bool) else (sub(0, a[1]) if a[2] else a[1]); out = []; before = True
        v0, v1 = old.ld(a[3], 0), old.ld(a[4], 0); r0, r1 = v0, v1
        for i in reversed(range(NA)):
            m = cmp('eq', s.key(ctx, old, i), z); r0 = ite(m, entry(ctx, old, 'alpha_coefficients', i, 1), r0); r1 = ite(m, entry(ctx, old, 'alpha_coefficients', i, 2), r1)
        return [('the constant term is that of the reaction', cmp('eq', new.ld(a[3], 0), r0)), ('the slope is that of the reaction', cmp('eq', new.ld(a[4], 0), r1))]

class SpinStrength(Contract):
    """spin scaling factor: the user's, or that of the reaction at its effective energy, or the default"""
    name = 'FissionFragments::setSpinStrength'; src = FF; nparams = 3
    def make(s, ctx): return [OBJ(ctx, 'FissionFragments', 'this'), z3.Int('zaid0'), z3.Real('einc')]
    class G(SpinScaling):
        A0, A1 = z3.Function('scaling0', I, z3.BoolSort(), R, R), z3.Function('scaling1', I, z3.BoolSort(), R, R)
        def post(s, ctx, a, old, new, ret):
            b = a[2] if is_z(a[2]) and z3.is_bool(a[2]) else zb(cmp('ne', a[2], 0)) if not isinstance(a[2], bool) else z3.BoolVal(a[2])
            return [('constant', cmp('eq', new.ld(a[3], 0), s.A0(zi(a[1]), b, zr(old.ld(a[3], 0))))), ('slope', cmp('eq', new.ld(a[4], 0), s.A1(zi(a[1]), b, zr(old.ld(a[4], 0)))))]
    def uses(s): return [SpinStrength.G()]
    def frame(s, ctx, a): return [Loc(State(ctx, Guard()).at(a[0], 'alphaI'), DBL)]
    def post(s, ctx, a, old, new, ret):
        f = old.ld(a[0], 'sf_flag'); sf = f if (is_z(f) and z3.is_bool(f)) else cmp('ne', f, 0); u = old.ld(a[0], 'alphaI0')
        c = lambda x: snap(F(x)); A0 = lambda b: SpinStrength.G.A0(zi(a[1]), z3.BoolVal(b), zr(c('1.3') if b else c('1.5'))); A1 = lambda b: SpinStrength.G.A1(zi(a[1]), z3.BoolVal(b), zr(F(0) if b else c('0.071')))
        a0, a1 = ite(sf, A0(True), A0(False)), ite(sf, A1(True), A1(False)); E = a[2]
        return [('the spin scaling factor is that of the reaction', cmp('eq', new.ld(a[0], 'alphaI'), ite(cmp('gt', u, 0), u, ite(cmp('lt', E, 0), a0, add(a0, mul(a1, E))))))]

class Angular(Contract):
    """angular distribution of the fragments: 1 + (W-1) cos^2, cumulated over 50 points"""
    name = 'FissionFragments::computeFragmentAngularDistribution'; src = FF; NT = 50; opts = {'inst': ('q',)}
    CUM = z3.Function('cumulatedAngular', I, R)
    def make(s, ctx): return [OBJ(ctx, 'FissionFragments', 'this')]
    def P(s, ctx, st, i, j): return entry(ctx, st, 'Pcostheta', i, j)
    def T(s, ctx, st, i, j):
        t = TAB(ctx, 'anisotropy')
        return st.ld(ctx.gep(ANI, t, [0, i, j]), ty=DBL)
    def frame(s, ctx, a): return [Loc(State(ctx, Guard()).at(a[0], 'anisotropyCoefficient'), DBL), Loc(TAB(ctx, 'Pcostheta', 0, 0), DBL, 'any')]
    def pre(s, ctx, a, st): return [('a beam energy', cmp('ge', st.ld(a[0], 'incidentEnergy0'), 0))]
    def step(s, st, a): return zi(st.ctx.cast('fptosi', DBL, add(mul(10, st.ld(a[0], 'incidentEnergy0')), F(1, 2)), I32))
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq); x, y, r = z3.Ints('x y row'); t = zr(s.T(ctx, st, x, y)); zt = zr(sub(st.ld(a[0], 'ZAIDc'), 1))
        # energies in steps of 0.1 MeV; at most one row for a target (both checked by the replay): row r, or none
        def rule(t):
            i, j = t.arg(0), t.arg(1)
            return [z3.Implies(z3.And(i == 0, j >= 1), t == z3.ToReal(j - 1) / 10), z3.Implies(z3.And(j == 0, i >= 1, i <= 7), (t == zt) == (i == r))]
        ctx.rules[t.decl().name()] = rule
        C = s.CUM; ctx.rules['cumulatedAngular'] = lambda t: [z3.Implies(t.arg(0) <= 0, t == 0), z3.Implies(t.arg(0) > 0, t == C(z3.simplify(t.arg(0) - 1)) + zr(s.pdf(ctx, st, a, t.arg(0))))]
    def x(s, j): return sub(fdiv(mul(2, sitofp(j)), F(s.NT - 1)), 1)
    def pdf(s, ctx, st, a, j): x = s.x(j); return add(1, mul(sub(z3.Real('W'), 1), mul(x, x)))     # for any W: the one the code ends up with is meant
    def want(s, ctx, st, a):
        r, k = z3.Int('row'), s.step(st, a); f = st.ld(a[0], 'anisotropy_flag'); flag = f if (is_z(f) and z3.is_bool(f)) else cmp('ne', f, 0)
        return band(flag, cmp('ge', r, 1), cmp('le', r, 7), cmp('le', k, 200)), s.T(ctx, st, r, add(k, 1))
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq); k1 = s.step(old, a) + 1
        def hk(ctx, g, fr, hd, L):
            out = []
            for n, q in L.ints(): out += [('%s not past the energy' % n, z3.Or(k1 > 201, zi(q) <= k1))]
            q, C, st, k = z3.Int('q'), s.CUM, State(ctx, g), zi(L.k); isW = zr(st.ld(a[0], 'anisotropyCoefficient')) == z3.Real('W')
            if any('Pcostheta' in key[0].name for key, p in L.arrays):
                v = zr(s.P(ctx, st, q, 1)); N = s.NT; out += [('the sum is still there', z3.Implies(z3.And(isW, k < N), zr(s.P(ctx, st, N - 1, 1)) == C(z3.IntVal(N - 1))))]
                for d in (0, 1):
                    out += [('cumulated up to %d' % d, z3.Implies(z3.And(isW, q >= 0, q < k + d), v == C(q))), ('normalised up to %d' % d, z3.Implies(z3.And(isW, q >= 0, q < k + d), v == C(q) / C(z3.IntVal(N - 1)))), ('not yet normalised from %d' % d, z3.Implies(z3.And(isW, q >= k + d, q < N), v == C(q)))]
            return out + [('not past the energy', z3.Or(k1 > 201, k + 1 <= k1))]
        return [hk]
    def post(s, ctx, a, old, new, ret):
        W = new.ld(a[0], 'anisotropyCoefficient'); has, v = s.want(ctx, old, a); i = z3.Int('i'); P = lambda j, c: s.P(ctx, new, j, c); C = s.CUM; S = C(z3.IntVal(s.NT - 1))
        on = band(cmp('ne', W, 1), cmp('eq', W, z3.Real('W'))); inn = band(on, cmp('ge', i, 0), cmp('lt', i, s.NT))
        return [('the anisotropy is that of the target at the beam energy, or one', cmp('eq', W, ite(has, v, F(1)))),
                ('the points are equidistant in cos(theta)', bimp(inn, cmp('eq', P(i, 0), s.x(i)))),
                ('the distribution is the cumulated sum of 1 + (W-1) cos^2, normalised', bimp(inn, cmp('eq', P(i, 1), fdiv(C(i), S)))),
                ('the distribution ends at one', bimp(band(on, cmp('ne', S, 0)), cmp('eq', P(s.NT - 1, 1), 1))), ('the distribution starts at zero', bimp(band(on, cmp('ne', S, 0)), cmp('eq', P(0, 1), 0)))]

NF, SF = (92233, 92234, 92235, 92238, 93237, 94239, 94241), (94238, 94240, 94242, 94244, 98252, 98254)
def flag(x): return x if (is_z(x) and z3.is_bool(x)) or isinstance(x, bool) else cmp('ne', x, 0)
def oneof(z, l): return bor(*[cmp('eq', z, i) for i in l])
class Options(Contract):
    """the options of a reaction: which targets are supported, in which mode, with which flags"""
    name = 'FissionFragments::setOptions'; src = FF
    def make(s, ctx): return [OBJ(ctx, 'FissionFragments', 'this')]
    def frame(s, ctx, a):
        st = State(ctx, Guard()); return [Loc(st.at(a[0], f), t) for f, t in (('sf_flag', I8), ('anisotropy_flag', I8), ('recomputeYields', I8), ('dZ', I32), ('dZ1', I32), ('RT', DBL))] if not s.verifying else None
    def post(s, ctx, a, old, new, ret):
        z, e = old.ld(a[0], 'ZAIDt'), old.ld(a[0], 'incidentEnergy'); sf, an = flag(new.ld(a[0], 'sf_flag')), flag(new.ld(a[0], 'anisotropy_flag'))
        d = new.ld(a[0], 'dZ'); d1 = new.ld(a[0], 'dZ1'); isn = oneof(z, NF)
        return [('only supported targets are accepted', oneof(z, NF + SF)), ('spontaneous fission has no beam', bimp(oneof(z, SF), cmp('eq', e, 0))), ('a beam is needed for 238U', bimp(cmp('eq', z, 92238), cmp('ne', e, 0))),
                ('the spontaneous fission flag is set for the spontaneously fissioning nuclei only', bor(band(sf, oneof(z, SF)), band(bnot(sf), isn))),
                ('the anisotropy is on for the targets with a beam only', bor(band(an, isn), band(bnot(an), oneof(z, SF)))),
                ('the target, the beam energy and the fissioning nucleus are kept', band(*[cmp('eq', old.ld(a[0], f), new.ld(a[0], f)) for f in ('ZAIDt', 'ZAIDc', 'Zc', 'Ac', 'Zt', 'At', 'incidentEnergy', 'incidentEnergy0', 'SnCompound', 'massExcessCompound', 'ZAIDc0', 'Ac0', 'Zc0', 'Asym', 'Zsym', 'alphaI0')])),
                ('the charges considered fit around the most probable one', band(cmp('ge', d, 3), cmp('le', d, d1), cmp('le', d1, 7))),
                ('the yields are built from systematics', flag(new.ld(a[0], 'recomputeYields')))]
    def exits(s, ctx, a, old): z, e = old.ld(a[0], 'ZAIDt'), old.ld(a[0], 'incidentEnergy'); return [('only unsupported reactions are refused', bor(bnot(oneof(z, NF + SF)), band(oneof(z, SF), cmp('ne', e, 0)), band(cmp('eq', z, 92238), cmp('eq', e, 0))))]

class Setup(Contract):
    """a reaction is set up for the nucleus and the energy that were asked for"""
    name = 'FissionFragments::FissionFragments(int, double, double)'; src = FF
    class Mass(Contract):
        name = 'getMassExcess'; M = z3.Function('massExcessOf', I, R)
        def pre(s, ctx, a, st): return inside(a[0])
        def frame(s, ctx, a): return []
        def ret_override(s, ctx, a, g, ret): return s.M(zi(a[0]))
    class Init(Contract):
        name = 'FissionFragments::init'
        def pre(s, ctx, a, st): return Setup.identity(ctx, a[0], st)
        def frame(s, ctx, a): return []
    @staticmethod
    def identity(ctx, t, st):
        z, e = z3.Int('ZAID'), z3.Real('Einc'); f = lambda n: st.ld(t, n); nf = cmp('ne', e, 0); zc = add(z, ite(nf, 1, 0)); M = lambda x: Setup.Mass.M(zi(x))
        Z = z / 1000
        return [('target', band(cmp('eq', f('ZAIDt'), z), cmp('eq', f('Zt'), Z), cmp('eq', f('At'), sub(z, mul(1000, Z))))),
                ('the fissioning nucleus is the target, plus the neutron of the beam', band(*[cmp('eq', f(n), w) for n, w in (('ZAIDc', zc), ('ZAIDc0', zc), ('Zc', Z), ('Zc0', Z), ('Ac', sub(zc, mul(1000, Z))), ('Ac0', sub(zc, mul(1000, Z))))])),
                ('the energy is that of the beam', band(cmp('eq', f('incidentEnergy'), e), cmp('eq', f('incidentEnergy0'), e))),
                ('the mass of the fissioning nucleus', cmp('eq', f('massExcessCompound'), M(zc))),
                ('the neutron separation energy of the fissioning nucleus, if there is a beam', cmp('eq', f('SnCompound'), ite(cmp('gt', e, 0), add(sub(M(sub(zc, 1)), M(zc)), M(1)), F(0)))),
                ('the symmetric split', band(cmp('eq', f('Asym'), sub(zc, mul(1000, Z)) / 2), cmp('eq', f('Zsym'), Z / 2)))]
    def make(s, ctx): return [OBJ(ctx, 'FissionFragments', 'this'), z3.Int('ZAID'), z3.Real('Einc'), z3.Real('alphaSpin')]
    def pre(s, ctx, a, st): return [('a nucleus', band(cmp('ge', a[1], 1000), cmp('lt', a[1], 139000), cmp('ge', a[1] % 1000, 1), cmp('lt', a[1] % 1000, 999)))]
    def uses(s): return [Setup.Mass(), Options(), Setup.Init()]
    def frame(s, ctx, a): return None
    def post(s, ctx, a, old, new, ret):
        return Setup.identity(ctx, a[0], new) + [('the spin scaling factor of the user is kept, or none', cmp('eq', new.ld(a[0], 'alphaI0'), ite(cmp('gt', a[3], 0), a[3], F(0))))]
