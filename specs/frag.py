"""Contracts for the sampling of the primary fragment pair (FissionFragments.cpp)"""
from contract import *
import kin
from kin import mass, ME, MN, sq3, GetMassExcess, MassExcess, BoostPfn, ARR3
from models import strget, strlit

def isint(x): return cmp('eq', z3.ToReal(z3.ToInt(zr(x))), x)
def spin_ok(j, A):
    """j is integer for even A, half-odd for odd A, and not negative"""
    return band(cmp('ge', j, 0), cmp('lt', j, 50), z3.If(zb(cmp('eq', srem(A, 2), 0)), zb(isint(j)), zb(isint(sub(j, Fraction(1, 2))))))
def pm1(x): return bor(cmp('eq', x, 1), cmp('eq', x, -1))
def nonneg_sorting(st, s): return True

class SpinParameter2(Contract):
    """abstract: the spin cut-off parameter, any number (its value only shapes the sampling probability)"""
    name = 'FissionFragments::spinParameter2'; trusted = True

class GetLDP(Contract):
    """abstract: the level-density parameter table holds positive values"""
    name = 'getLDP'; trusted = True
    def post(s, ctx, a, old, new, ret): return [('positive', cmp('gt', ret, 0))]

class GetInitialSpin(Contract):
    name = 'FissionFragments::getInitialSpin'
    def make(s, ctx):
        Z, A = z3.Ints('Z A')
        return [OBJ(ctx, 'FissionFragments', 'this'), Z, A, ARR('U', DBL, 1), ARR('spin', DBL, 1)]
    def uses(s): return [SpinParameter2()]
    def pre(s, ctx, a, st): return [('A > 0', cmp('gt', a[2], 0))]
    def frame(s, ctx, a): return [Loc(a[4], DBL)]
    def post(s, ctx, a, old, new, ret):
        return [('the spin is an integer for even A, half-odd for odd A, and in range', spin_ok(new.ld(a[4], 0), a[2]))]

class FragmentExcitationEnergy(Contract):
    name = 'FissionFragments::computeFragmentExcitationEnergy'
    def make(s, ctx):
        Zl, Al, Zh, Ah = z3.Ints('Zl Al Zh Ah')
        return [OBJ(ctx, 'FissionFragments', 'this'), z3.Real('TXE'), Zl, Al, Zh, Ah, ARR('Ul', DBL, 1), ARR('Uh', DBL, 1), OBJ(ctx, 'std::__cxx11::basic_string', 'sortingOption')]
    def uses(s): return [GetLDP()]
    opts = dict(check_bounds=False)
    def pre(s, ctx, a, st):
        return [('TXE is not negative', cmp('ge', a[1], 0))]
    def frame(s, ctx, a): return [Loc(a[6], DBL), Loc(a[7], DBL), Loc(State(ctx, Guard()).at(a[0], 'RT'), DBL)]
    def post(s, ctx, a, old, new, ret):
        mx = cmp('eq', strget(ctx, a[8], old.g), strlit('maxEntropy'))
        ul, uh = new.ld(a[6], 0), new.ld(a[7], 0)
        return [('the two fragments share exactly the total excitation energy', bimp(bnot(mx), cmp('eq', add(ul, uh), a[1]))),
                ('no fragment gets a negative excitation energy', bimp(bnot(mx), band(cmp('ge', ul, 0), cmp('ge', uh, 0))))]

class InitialConditions(Contract):
    name = 'FissionFragments::computeFragmentInitialConditions'
    def make(s, ctx):
        Zl, Al, Zh, Ah = z3.Ints('Zl Al Zh Ah')
        i32 = lambda n: ARR(n, I32, 1)
        d = lambda n, k=1: ARR(n, DBL, k)
        return [OBJ(ctx, 'FissionFragments', 'this'), z3.Real('TKE'), Zl, Al, Zh, Ah, d('Ul'), d('Uh'), d('spinl'), d('spinh'), i32('parl'), i32('parh'), d('energyRelease'), d('pl', 3), d('ph', 3)]
    def uses(s): return [GetMassExcess(), FragmentExcitationEnergy(), GetInitialSpin(), BoostPfn()]
    def pre(s, ctx, a, st):
        t = a[0]
        f = lambda n: st.ld(t, n)
        Z, A0, A = f('Zc0'), f('Ac0'), f('Ac')
        nu = sub(A0, A)
        out = [('at most 3 pre-fission neutrons', band(cmp('ge', nu, 0), cmp('le', nu, 3))), ('En >= 0', cmp('ge', f('incidentEnergy0'), 0)),
               ('a pre-equilibrium neutron is one of the pre-fission neutrons', bimp(cmp('ne', f('preeq_flag'), 0), cmp('ge', nu, 1))), ('preeq_flag is a bool', band(cmp('ge', f('preeq_flag'), 0), cmp('le', f('preeq_flag'), 1))),
               ('masses positive', band(*[cmp('gt', mass(Z, sub(A0, n)), 0) for n in range(4)] + [cmp('gt', mass(a[2], a[3]), 0), cmp('gt', mass(a[4], a[5]), 0)])),
               ('A > 0', band(cmp('gt', a[3], 0), cmp('gt', a[5], 0)))]
        for n in range(3): out.append(('cm energies are not negative', cmp('ge', st.ld(t, 'cmEnergy_pfn', n), 0)))
        return out
    def frame(s, ctx, a):
        st = State(ctx, Guard()); t = a[0]
        return [Loc(a[i], DBL) for i in (6, 7, 8, 9, 12)] + [Loc(a[10], I32), Loc(a[11], I32), Loc(a[13], DBL, 3), Loc(a[14], DBL, 3), Loc(st.at(t, 'RT'), DBL),
            Loc(st.at(t, 'labEnergy_pfn', 0), DBL, 3), Loc(st.at(t, 'cmVelocities_pfn', 0), ARR3, 3), Loc(st.at(t, 'labVelocities_pfn', 0), ARR3, 3)]
    def post(s, ctx, a, old, new, ret):
        t = a[0]
        f = lambda n: old.ld(t, n)
        Q = sub(sub(f('massExcessCompound'), ME(zi(add(mul(1000, a[2]), a[3])))), ME(zi(add(mul(1000, a[4]), a[5]))))
        TXE = sub(add(Q, add(f('incidentEnergy'), f('SnCompound'))), a[1])
        ul, uh = new.ld(a[6], 0), new.ld(a[7], 0)
        neg_ = cmp('lt', TXE, 0)
        mx = cmp('eq', strget(ctx, old.at(t, 'energySortingOption'), old.g), strlit('maxEntropy'))
        out = [('the recorded energy release is the mass difference', cmp('eq', new.ld(a[12], 0), Q)),
               ('excitation energies are zero when the pair is energetically forbidden', bimp(neg_, band(cmp('eq', ul, 0), cmp('eq', uh, 0)))),
               ('excitation energies add up to Q + incident energy + separation energy - TKE', bimp(band(bnot(neg_), bnot(mx)), cmp('eq', add(ul, uh), TXE))),
               ('excitation energies are not negative', bimp(bnot(mx), band(cmp('ge', ul, 0), cmp('ge', uh, 0)))),
               ('light spin matches the mass parity', bimp(bnot(neg_), spin_ok(new.ld(a[8], 0), a[3]))),
               ('heavy spin matches the mass parity', bimp(bnot(neg_), spin_ok(new.ld(a[9], 0), a[5]))),
               ('parities are +1 or -1', bimp(bnot(neg_), band(pm1(new.ld(a[10], 0, et=I32)), pm1(new.ld(a[11], 0, et=I32)))))]
        from models import m_sqrt
        nu = sub(f('Ac0'), f('Ac'))
        for i in range(3):
            tot = add(new.ld(a[13], i), new.ld(a[14], i))
            for n in range(3): tot = add(tot, ite(cmp('lt', n, nu), mul(MN, new.ld(t, 'labVelocities_pfn', n, i)), Fraction(0)))
            want = Fraction(0) if i < 2 else m_sqrt(ctx, mul(mul(Fraction(2), MN), f('incidentEnergy0')))
            out.append(('fragments and pre-fission neutrons carry the incident momentum (component %d)' % i, cmp('eq', tot, want)))
        return out

class SampleTKE(Contract):
    """abstract: the sampled total kinetic energy is any number"""
    name = 'Yields::sampleTKE'; trusted = True

class Sample(Contract):
    name = 'FissionFragments::sampleFissionFragments'
    opts = dict(check_bounds=False)
    ffy = False
    me = staticmethod(mass)
    def make(s, ctx):
        r = [OBJ(ctx, 'FissionFragments', 'this'), OBJ(ctx, 'fissionFragmentType', 'light'), OBJ(ctx, 'fissionFragmentType', 'heavy')]
        if s.ffy: r.append(OBJ(ctx, 'Yields', 'ffy'))
        return r
    def uses(s): return [GetMassExcess(), MassExcess(), InitialConditions(), SampleTKE()]
    def pre(s, ctx, a, st):
        f = lambda n: st.ld(a[0], n)
        Z, A0, A = f('Zc0'), f('Ac0'), f('Ac')
        nu = sub(A0, A)
        out = [('at most 3 pre-fission neutrons', band(cmp('ge', nu, 0), cmp('le', nu, 3))), ('En >= 0', cmp('ge', f('incidentEnergy0'), 0)),
               ('a pre-equilibrium neutron is one of the pre-fission neutrons', bimp(cmp('ne', f('preeq_flag'), 0), cmp('ge', nu, 1))), ('preeq_flag is a bool', band(cmp('ge', f('preeq_flag'), 0), cmp('le', f('preeq_flag'), 1))),
               ('masses of the compound chain positive', band(*[cmp('gt', mass(Z, sub(A0, n)), 0) for n in range(4)])),
               ('the sampled mass range is inside the compound nucleus', band(cmp('gt', f('Amin'), 0), cmp('lt', f('Amax'), A), cmp('le', f('Amin'), f('Amax'))))]
        for n in range(3): out.append(('cm energies are not negative', cmp('ge', st.ld(a[0], 'cmEnergy_pfn', n), 0)))
        return out
    def frame(s, ctx, a):
        st = State(ctx, Guard()); t = a[0]
        return [Loc(a[1], find_struct(ctx, 'fissionFragmentType')), Loc(a[2], find_struct(ctx, 'fissionFragmentType')), Loc(st.at(t, 'RT'), DBL),
            Loc(st.at(t, 'labEnergy_pfn', 0), DBL, 'all'), Loc(st.at(t, 'cmVelocities_pfn', 0), ARR3, 'all'), Loc(st.at(t, 'labVelocities_pfn', 0), ARR3, 'all')]
    def post(s, ctx, a, old, new, ret):
        t = a[0]
        f = lambda n: old.ld(t, n)
        L = lambda n, *i: new.ld(a[1], n, *i)
        H = lambda n, *i: new.ld(a[2], n, *i)
        Q = sub(sub(f('massExcessCompound'), ME(zi(add(mul(1000, L('Z')), L('A'))))), ME(zi(add(mul(1000, H('Z')), H('A')))))
        TXE = sub(add(Q, add(f('incidentEnergy'), f('SnCompound'))), L('TKE'))
        neg_ = cmp('lt', TXE, 0)
        mx = cmp('eq', strget(ctx, old.at(t, 'energySortingOption'), old.g), strlit('maxEntropy'))
        Ml, Mh = mass(L('Z'), L('A')), mass(H('Z'), H('A'))
        out = [('mass numbers add up to the fissioning nucleus', cmp('eq', add(L('A'), H('A')), f('Ac'))),
               ('charges add up to the fissioning nucleus', cmp('eq', add(L('Z'), H('Z')), f('Zc'))),
               ('the light fragment is not heavier than the heavy one', cmp('le', L('A'), H('A'))),
               ('N = A - Z', band(cmp('eq', L('N'), sub(L('A'), L('Z'))), cmp('eq', H('N'), sub(H('A'), H('Z'))))),
               ('both fragments carry the same TKE and energy release', band(cmp('eq', L('TKE'), H('TKE')), cmp('eq', L('energyRelease'), H('energyRelease')))),
               ('the energy release is the mass difference', cmp('eq', L('energyRelease'), Q)),
               ('recorded masses are the fragment masses', band(cmp('eq', L('mass'), Ml), cmp('eq', H('mass'), Mh))),
               ('kinetic energies add up to TKE', bimp(cmp('gt', add(Ml, Mh), 0), cmp('eq', add(L('KE'), H('KE')), L('TKE')))),
               ('kinetic energies are shared in inverse ratio of the masses', bimp(cmp('gt', add(Ml, Mh), 0), cmp('eq', mul(L('KE'), Ml), mul(H('KE'), Mh)))),
               ('excitation energies add up to Q + incident + separation energy - TKE', bimp(band(bnot(neg_), bnot(mx)), cmp('eq', add(L('U'), H('U')), TXE))),
               ('a forbidden pair has zero excitation energies', bimp(neg_, band(cmp('eq', L('U'), 0), cmp('eq', H('U'), 0)))),
               ('light spin matches the mass parity', bimp(bnot(neg_), spin_ok(L('spin'), L('A')))),
               ('heavy spin matches the mass parity', bimp(bnot(neg_), spin_ok(H('spin'), H('A')))),
               ('parities are +1 or -1', bimp(bnot(neg_), band(pm1(L('parity')), pm1(H('parity')))))]
        if s.ffy: out.append(('an accepted pair has excitation energy', bimp(bnot(mx), bnot(neg_))))
        from models import m_sqrt
        nu = sub(f('Ac0'), f('Ac'))
        for i in range(3):
            out.append(('post-emission momenta start as the initial momenta (component %d)' % i, band(cmp('eq', L('postMomentum', i), L('preMomentum', i)), cmp('eq', H('postMomentum', i), H('preMomentum', i)))))
            tot = add(L('preMomentum', i), H('preMomentum', i))
            for n in range(3): tot = add(tot, ite(cmp('lt', n, nu), mul(MN, new.ld(t, 'labVelocities_pfn', n, i)), Fraction(0)))
            want = Fraction(0) if i < 2 else m_sqrt(ctx, mul(mul(Fraction(2), MN), f('incidentEnergy0')))
            out.append(('fragments and pre-fission neutrons carry the incident momentum (component %d)' % i, cmp('eq', tot, want)))
        return out

class SampleTable(Sample): nparams = 3
class SampleYields(Sample):
    nparams = 4; ffy = True
