"""Contracts for kinematics.cpp"""
from contract import *
from models import SQRT

AMU = None
def consts(ctx):
    """numeric constants are read from the headers through the IR (they are folded); the spec uses the
       same physical constants by value"""
    pass
amuMeV = Fraction('931.494013')
NM = Fraction('1.00866491578')

def sq3(v): return add(add(mul(v[0], v[0]), mul(v[1], v[1])), mul(v[2], v[2]))
ME = z3.Function('massExcess', I, R)

class GetMassExcess(Contract):
    """abstract: a pure function of the ZA number (tabulated + FRDM); its value is not constrained here
       except that nuclear masses are positive (precondition of the callers)"""
    name = 'getMassExcess'; trusted = True
    rules = {'massExcess': lambda t: t > -900}      # every tabulated mass excess is above -900 MeV: masses are positive for A >= 1
    def ret_override(s, ctx, a, g, ret): return ME(zi(a[0]))
class MassExcess(Contract):
    name = 'mass_excess'; trusted = True
    rules = GetMassExcess.rules
    def ret_override(s, ctx, a, g, ret): return ME(add(mul(a[0], 1000), a[1]))

def mass(Z, A): return add(mul(zr(A), amuMeV), ME(zi(add(mul(Z, 1000), A))))

class NeutronEmissionBoost(Contract):
    name = 'neutron_emission_boost'
    Mn = snap(NM * amuMeV)
    def make(s, ctx):
        Z, A = z3.Ints('Z_c A_c')
        D = lambda n, k=3: Ptr(Region(n, DBL, k, 'param'), (0,))
        Tb = lambda n: Ptr(Region(n, ctx.fn.mod_arr if False else arr2, 50, 'param'), (0,))
        arr2 = T('array', n=2, el=DBL)
        return [Z, A, D('p_c'), z3.Real('Ecm'), D('vlab'), D('vcm'), z3.Bool('preeq'), Tb('Pcostheta'), Tb('Ppreeq')]
    def uses(s): return [GetMassExcess()]
    def pre(s, ctx, a, st):
        return [('compound mass is positive', cmp('gt', mass(a[0], a[1]), 0)), ('c.m. energy is not negative', cmp('ge', a[3], 0))]
    def frame(s, ctx, a): return [Loc(a[2], DBL, 3), Loc(a[4], DBL, 3), Loc(a[5], DBL, 3)]
    def post(s, ctx, a, old, new, ret):
        p0 = [old.ld(a[2], i) for i in range(3)]; p1 = [new.ld(a[2], i) for i in range(3)]
        vl = [new.ld(a[4], i) for i in range(3)]; vc = [new.ld(a[5], i) for i in range(3)]
        M = mass(a[0], a[1])
        out = []
        for i in range(3):
            out.append(('lab velocity[%d] is c.m. velocity plus emitter velocity' % i, cmp('eq', vl[i], add(vc[i], fdiv(p0[i], M)))))
            out.append(('momentum[%d] is conserved in the emission' % i, cmp('eq', add(p1[i], mul(s.Mn, vl[i])), p0[i])))
        out.append(('returned energy is the lab kinetic energy', cmp('eq', ret, mul(mul(Fraction(1, 2), s.Mn), sq3(vl)))))
        out.append(('c.m. speed matches the c.m. energy', bimp(bnot(a[6]), cmp('eq', mul(mul(Fraction(1, 2), s.Mn), sq3(vc)), a[3]))))
        return out

ARR2 = T('array', n=2, el=DBL)
ARR3 = T('array', n=3, el=DBL)
def D(n, k): return Ptr(Region(n, DBL, k, 'param'), (0,))
def D3(n, k): return Ptr(Region(n, ARR3, k, 'param'), (0,))
def TB(n): return Ptr(Region(n, ARR2, 50, 'param'), (0,))
MN = NeutronEmissionBoost.Mn

class BoostPfn(Contract):
    name = 'boost_pfn'
    opts = dict(sym_unroll=4)
    N = 3
    def make(s, ctx):
        i = z3.Ints('Z_c A_c A_l Z_l A_h Z_h nu_pre')
        En, TKE, an = z3.Reals('En TKE anis')
        return [i[0], i[1], En, TKE, i[2], i[3], i[4], i[5], i[6], an, z3.Bool('preeq'), D('cmE', 3), D('labE', 3), Ptr(Region('ntype', INT(32), 3, 'param'), (0,)),
                D3('vcm', 3), D3('vlab', 3), TB('Pcostheta'), TB('Ppreeq'), D('pl', 3), D('ph', 3)]
    def uses(s): return [GetMassExcess(), NeutronEmissionBoost()]
    def pre(s, ctx, a, st):
        Z, A, En, TKE, Al, Zl, Ah, Zh, nu = a[:9]
        out = [('0 <= nu_pre <= 3', band(cmp('ge', nu, 0), cmp('le', nu, 3))), ('a pre-equilibrium neutron is one of the pre-fission neutrons', bimp(a[10], cmp('ge', nu, 1))),
               ('En >= 0', cmp('ge', En, 0))]
        for n in range(4): out.append(('compound mass positive', cmp('gt', mass(Z, sub(A, n)), 0)))
        out.append(('fragment masses positive', band(cmp('gt', mass(Zl, Al), 0), cmp('gt', mass(Zh, Ah), 0))))
        for n in range(3): out.append(('cm energies are not negative', cmp('ge', st.ld(a[11], n), 0)))
        return out
    def frame(s, ctx, a): return [Loc(a[12], DBL, 3), Loc(a[14], ARR3, 3), Loc(a[15], ARR3, 3), Loc(a[18], DBL, 3), Loc(a[19], DBL, 3)]
    def post(s, ctx, a, old, new, ret):
        nu = a[8]
        from models import m_sqrt
        out = []
        for i in range(3):
            tot = add(new.ld(a[18], i), new.ld(a[19], i))
            for n in range(3):
                tot = add(tot, ite(cmp('lt', n, nu), mul(MN, new.ld(a[15], n, i, et=ARR3)), Fraction(0)))
            want = Fraction(0) if i < 2 else m_sqrt(ctx, mul(mul(Fraction(2), MN), a[2]))
            out.append(('fragments and pre-fission neutrons carry the incident momentum (component %d)' % i, cmp('eq', tot, want)))
        v = [[new.ld(a[15], n, i, et=ARR3) for i in range(3)] for n in range(3)]
        w = [[new.ld(a[14], n, i, et=ARR3) for i in range(3)] for n in range(3)]
        for n in range(3):
            out.append(('lab energy of pre-fission neutron %d is its kinetic energy' % n, bimp(cmp('lt', n, nu), cmp('eq', new.ld(a[12], n), mul(mul(Fraction(1, 2), MN), sq3(v[n]))))))
        inc = [Fraction(0), Fraction(0), m_sqrt(ctx, mul(mul(Fraction(2), MN), a[2]))]
        # momentum of the nucleus before emission n, and its mass
        p = [inc]
        for n in range(3): p.append([sub(p[n][i], mul(MN, v[n][i])) for i in range(3)])
        for n in range(3):
            for i in range(3):
                e = cmp('eq', v[n][i], add(w[n][i], fdiv(p[n][i], mass(a[0], sub(a[1], n)))))
                if n == 0: out.append(('pre-fission neutron 0 leaves the compound nucleus (component %d)' % i, bimp(cmp('lt', n, nu), e)))
                else:
                    out.append(('pre-fission neutron %d leaves the nucleus with %d neutrons less (component %d)' % (n, n, i), bimp(band(cmp('lt', n, nu), bnot(a[10])), e)))
                    out.append(('after a pre-equilibrium neutron, neutron %d leaves the nucleus with %d neutrons less (component %d)' % (n, n, i), bimp(band(cmp('lt', n, nu), a[10]), e)))
            if n: out.append(('c.m. speed of pre-fission neutron %d' % n, bimp(cmp('lt', n, nu), cmp('eq', mul(mul(Fraction(1, 2), MN), sq3(w[n])), old.ld(a[11], n)))))
            else: out.append(('c.m. speed of pre-fission neutron 0', bimp(band(cmp('lt', n, nu), bnot(a[10])), cmp('eq', mul(mul(Fraction(1, 2), MN), sq3(w[n])), old.ld(a[11], n)))))
        Ml, Mh = mass(a[5], a[4]), mass(a[7], a[6])
        for n in range(4):
            Mc = mass(a[0], sub(a[1], n))
            pc = [add(new.ld(a[18], i), new.ld(a[19], i)) for i in range(3)]   # momentum of the fissioning nucleus (see the first three postconditions)
            q = [sub(new.ld(a[18], i), fdiv(mul(Ml, pc[i]), Mc)) for i in range(3)]
            tk = sub(a[3], mul(mul(Fraction(1, 2), add(Ml, Mh)), fdiv(sq3(pc), mul(Mc, Mc))))
            out.append(('fragments share the total kinetic energy in the frame of the fissioning nucleus (%d pre-fission neutrons)' % n,
              bimp(band(cmp('eq', nu, n), bnot(a[10]), cmp('eq', a[9], Fraction(1)), cmp('ge', tk, 0)),
                   cmp('eq', mul(sq3(q), add(fdiv(Fraction(1), Ml), fdiv(Fraction(1), Mh))), mul(Fraction(2), tk)))))
        return out

class Boost(Contract):
    name = 'boost'
    opts = dict(sym_unroll=10)
    def make(s, ctx):
        Z, A, nn, ng = z3.Ints('Zf Af nn ng')
        return [D('pf', 3), Z, A, nn, D('cmE', 10), D('labE', 10), D3('vcm', 10), D3('vlab', 10), ng, D('cmEg', 50), D('labEg', 50), D3('gcm', 50), D3('glab', 50)]
    def uses(s): return [GetMassExcess(), MassExcess(), NeutronEmissionBoost()]
    def pre(s, ctx, a, st):
        out = [('0 <= nn <= 10', band(cmp('ge', a[3], 0), cmp('le', a[3], 10))), ('0 <= ng <= 50', band(cmp('ge', a[8], 0), cmp('le', a[8], 50)))]
        for n in range(11): out.append(('mass positive', cmp('gt', mass(a[1], sub(a[2], n)), 0)))
        for n in (range(10) if s.verifying else [z3.Int('r')]): out.append(('cm energies are not negative', bimp(band(cmp('ge', n, 0), cmp('lt', n, a[3])), cmp('ge', st.ld(a[4], n), 0))))
        return out
    def frame(s, ctx, a): return [Loc(a[0], DBL, 3), Loc(a[5], DBL, 10), Loc(a[6], ARR3, 10), Loc(a[7], ARR3, 10), Loc(a[10], DBL, 50), Loc(a[11], ARR3, 50), Loc(a[12], ARR3, 50)]
    def post(s, ctx, a, old, new, ret):
        nn, ng = a[3], a[8]
        out = []
        for i in range(3):
            tot = new.ld(a[0], i)
            for n in range(10): tot = add(tot, ite(cmp('lt', n, nn), mul(MN, new.ld(a[7], n, i, et=ARR3)), Fraction(0)))
            out.append(('momentum is conserved over the neutron cascade (component %d)' % i, cmp('eq', tot, old.ld(a[0], i))))
        q = z3.Int('q')
        inr = band(cmp('ge', q, 0), cmp('lt', q, nn))
        # some neutron n: energy
        for n in range(10):
            v = [new.ld(a[7], n, i, et=ARR3) for i in range(3)]
            out.append(('lab energy of neutron %d is its kinetic energy' % n, bimp(cmp('lt', n, nn), cmp('eq', new.ld(a[5], n), mul(mul(Fraction(1, 2), MN), sq3(v))))))
        r = z3.Int('r')
        inr = band(cmp('ge', r, 0), cmp('lt', r, nn))
        for n in range(10):
            out.append(('c.m. energy of neutron %d is its c.m. kinetic energy' % n, bimp(cmp('lt', n, nn), cmp('eq', old.ld(a[4], n), mul(mul(Fraction(1, 2), MN), sq3([new.ld(a[6], n, i, et=ARR3) for i in range(3)]))))))
        # the same for an arbitrary index: follows from the ten statements above, offered to callers
        if not s.verifying: out.append(('lab energy of any neutron is its kinetic energy', bimp(inr, cmp('eq', new.ld(a[5], r), mul(mul(Fraction(1, 2), MN), sq3([new.ld(a[7], r, i, et=ARR3) for i in range(3)]))))))
        if not s.verifying: out.append(('c.m. energy of any neutron is its c.m. kinetic energy', bimp(inr, cmp('eq', old.ld(a[4], r), mul(mul(Fraction(1, 2), MN), sq3([new.ld(a[6], r, i, et=ARR3) for i in range(3)]))))))
        g = z3.Int('gq')
        ing = band(cmp('ge', g, 0), cmp('lt', g, ng))
        Eg, El = old.ld(a[9], g), new.ld(a[10], g)
        c = [new.ld(a[11], g, i, et=ARR3) for i in range(3)]; l = [new.ld(a[12], g, i, et=ARR3) for i in range(3)]
        out.append(('c.m. photon momentum has the photon energy as magnitude', bimp(ing, cmp('eq', sq3(c), mul(Eg, Eg)))))
        out.append(('lab photon momentum has the lab energy as magnitude', bimp(ing, cmp('eq', sq3(l), mul(El, El)))))
        for i in range(3): out.append(('the photon keeps its direction (component %d)' % i, bimp(ing, cmp('eq', mul(l[i], Eg), mul(c[i], El)))))
        from models import m_sqrt
        b2 = [fdiv(m_sqrt(ctx, sq3([new.ld(a[0], i) for i in range(3)])), mass(a[1], sub(a[2], n))) for n in range(11)]
        for n in range(11):
            bt = b2[n]
            out.append(('the photon is Doppler shifted by the fragment that is left after %d neutrons' % n,
                bimp(band(ing, cmp('eq', nn, n), cmp('gt', Eg, 0), cmp('lt', bt, 1)), cmp('eq', mul(El, sub(Eg, mul(bt, c[0]))), mul(mul(Eg, Eg), m_sqrt(ctx, sub(Fraction(1), mul(bt, bt))))))))
        return out
