"""Contracts for the accessors of an event (cgmfEvents.h) and the C interface (cgmfEvents_capi.cpp)"""
from contract import *

NEUT = dict(Energy='neutronEnergies', Dircosu='neutronDircosu', Dircosv='neutronDircosv', Dircosw='neutronDircosw', Age='neutronAges')
CMN = dict(Energy='cmNeutronEnergies', Dircosu='cmNeutronDircosu', Dircosv='cmNeutronDircosv', Dircosw='cmNeutronDircosw')
PHOT = dict(Energy='photonEnergies', Dircosu='photonDircosu', Dircosv='photonDircosv', Dircosw='photonDircosw', Age='photonAges')
PRE = dict(Energy='preFissionNeutronEnergies', Dircosu='preFissionNeutronDircosu', Dircosv='preFissionNeutronDircosv', Dircosw='preFissionNeutronDircosw')
ARRAYS = [('neutronNu', NEUT, 'Neutron', 'n', ''), ('neutronNu', CMN, 'CmNeutron', 'cmn', ''), ('photonNu', PHOT, 'Photon', 'g', ''), ('preFissionNeutronNu', PRE, 'PreFissionNeutron', 'pren', '')]
CN = dict(Energy='erg', Dircosu='dircosu', Dircosv='dircosv', Dircosw='dircosw', Age='tme')
FRAG = dict(Mass='A', Charge='Z', KineticEnergy='KE', KineticEnergyPost='KEpost', ExcitationEnergy='U', Spin='spin', Parity='parity', NeutronNu='nu', PhotonNu='nug',
            Dircosu='fragmentDircosu', Dircosv='fragmentDircosv', Dircosw='fragmentDircosw')
FC = dict(Mass='mass', Charge='charge', KineticEnergy='ke', KineticEnergyPost='kepost', ExcitationEnergy='u', Spin='spin', Parity='parity', NeutronNu='nnu', PhotonNu='gnu',
          Dircosu='dircosu', Dircosv='dircosv', Dircosw='dircosw')

def event(ctx):
    return OBJ(ctx, 'cgmfEvent', 'event')
def typed(ctx, p):
    """every particle array has as many elements as the multiplicity says"""
    st = State(ctx, Guard())
    for nu, d, *_ in ARRAYS:
        n = st.ld(p, nu)
        for m in d.values(): ctx.pointee(st.at(p, m), DBL, n)
    return p

class Acc(Contract):
    """base: cls::method (C++) or the C function, on the current event"""
    capi = False
    index = False
    def make(s, ctx):
        if s.capi:
            g = GLOB(ctx, 'cgmf_fevent')
            p = ctx.pointee(g, find_struct(ctx, 'cgmfEvent'), 1)
            s.ev = typed(ctx, p)
            return [z3.Int('i')] if s.index else []
        s.ev = typed(ctx, event(ctx))
        return [s.ev] + ([z3.Int('i')] if s.index else [])
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret):
        want = s.want(ctx, a, old)
        return [('returns what the event recorded' + (' for an index in range and -1 otherwise' if s.index else ''), cmp('eq', ret, want))]
def arr_acc(name_, capi_, nu, member):
    class A(Acc):
        name = name_; capi = capi_; index = True
        def want(s, ctx, a, st):
            i = a[-1]
            return ite(band(cmp('ge', i, 0), cmp('lt', i, st.ld(s.ev, nu))), st.ld(s.ev, member, i), Fraction(-1))
    return A()
def fld_acc(name_, capi_, *path):
    class A(Acc):
        name = name_; capi = capi_
        def want(s, ctx, a, st): return st.ld(s.ev, *path)
    return A()

class Group:
    name = ''
class CppAccessors(Group):
    name = 'cgmEvent / cgmfEvent accessors'
    def members(s):
        out = []
        for nu, d, meth, c, _ in ARRAYS:
            cls = 'cgmfEvent' if meth == 'PreFissionNeutron' else 'cgmEvent'
            for k, m in d.items(): out.append(arr_acc('%s::get%s%s' % (cls, meth, k), False, nu, m))
            if meth != 'CmNeutron': out.append(fld_acc('%s::get%sNu' % (cls, meth), False, nu))
        out.append(fld_acc('cgmfEvent::getTargetNucleus', False, 'ZAIDt')); out.append(fld_acc('cgmfEvent::getIncidentEnergy', False, 'incidentEnergy'))
        for side, ev in (('Light', 'eventLF'), ('Heavy', 'eventHF')):
            for k, m in FRAG.items(): out.append(fld_acc('cgmfEvent::get%sFragment%s' % (side, k), False, ev, m))
            for pp in ('pre', 'post'):
                for i, x in enumerate('XYZ'): out.append(fld_acc('cgmfEvent::get%sFragment%sMomentum%s' % (side, pp.capitalize(), x), False, ev, pp + 'FragmentMomentum', i))
        return out
class CAccessors(Group):
    name = 'cgmf_get* C interface'
    def members(s):
        out = []
        for nu, d, meth, c, _ in ARRAYS:
            for k, m in d.items(): out.append(arr_acc('cgmf_get%s%s' % (c, CN[k]), True, nu, m))
        for n, m in (('nnu', 'neutronNu'), ('gnu', 'photonNu'), ('prennu', 'preFissionNeutronNu')): out.append(fld_acc('cgmf_get' + n, True, m))
        for side, ev in (('lf', 'eventLF'), ('hf', 'eventHF')):
            for k, m in FRAG.items(): out.append(fld_acc('cgmf_get%s%s' % (side, FC[k]), True, ev, m))
            for pp in ('pre', 'post'):
                for i, x in enumerate('xyz'): out.append(fld_acc('cgmf_get%s%smomentum_%s' % (side, pp, x), True, ev, pp + 'FragmentMomentum', i))
        return out

# ------------------------------------------------------------------ admission of a reaction
NEUTRON_INDUCED = (92233, 92234, 92235, 92238, 93237, 94239, 94241)
SPONTANEOUS = (94238, 94240, 94242, 94244, 98252, 98254)
def admissible(za, e):
    """documented: spontaneous fission (zero energy) of the listed nuclei, neutron-induced fission of the listed targets with 0 < E <= 20 MeV"""
    aza = z3.If(za >= 0, za, -za)
    sf = band(cmp('eq', e, 0), bor(*[cmp('eq', aza, x) for x in SPONTANEOUS]))
    nf = band(cmp('gt', e, 0), cmp('le', e, 20), bor(*[cmp('eq', za, x) for x in NEUTRON_INDUCED]))
    return bor(sf, nf)
class CheckInput(Contract):
    name = 'cgmfEvent::checkInput'
    opts = dict(sym_unroll=40)
    def make(s, ctx): return [event(ctx), z3.Int('isotope'), z3.Real('einc')]
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret):
        return [('only a supported reaction is accepted', admissible(a[1], a[2]))]
    def exits(s, ctx, a, old):
        return [('a supported reaction is not rejected', bnot(band(cmp('gt', a[1], 0), admissible(a[1], a[2]))))]

# ------------------------------------------------------------------ assembling the event record
def T_(name_, nparams_=None, fr=None, ps=None):
    class C(Contract):
        name = name_; trusted = True
        def frame(s, ctx, a): return fr(ctx, a) if fr else []
        def post(s, ctx, a, old, new, ret): return ps(ctx, a, old, new, ret) if ps else []
    return C()
FEOUT = ['neutronEnergies', 'neutronDircosu', 'neutronDircosv', 'neutronDircosw', 'neutronAges', 'cmNeutronEnergies', 'cmNeutronDircosu', 'cmNeutronDircosv', 'cmNeutronDircosw',
         'photonEnergies', 'photonDircosu', 'photonDircosv', 'photonDircosw', 'photonAges', 'cmPhotonEnergies', 'cmPhotonDircosu', 'cmPhotonDircosv', 'cmPhotonDircosw']
def fe_frame(ctx, fe):
    st = State(ctx, Guard())
    out = [Loc(st.at(fe, m), I32) for m in ('nu', 'nug')] + [Loc(st.at(fe, 'KEpost'), DBL), Loc(st.at(fe, 'postFragmentMomentum', 0), DBL, 3)]
    for m in FEOUT: out.append(Loc(st.at(fe, m, 0), DBL, 10 if 'eutron' in m else 50))
    return out
def fe_valid(fe, st):
    return [('0 <= nu <= 10', band(cmp('ge', st.ld(fe, 'nu'), 0), cmp('le', st.ld(fe, 'nu'), 10))), ('0 <= nug <= 50', band(cmp('ge', st.ld(fe, 'nug'), 0), cmp('le', st.ld(fe, 'nug'), 50)))]
INIT = ['A', 'Z', 'U', 'spin', 'parity', 'KE']
class GenHistT(Contract):
    name = 'FissionFragments::generateInitialFissionFragmentHistories'; trusted = True
    def frame(s, ctx, a):
        st = State(ctx, Guard()); t = a[0]
        T = find_struct(ctx, 'fissionFragmentType')
        AS(ctx, t, 'FissionFragments'); AS(ctx, a[1], 'fissionFragmentType'); AS(ctx, a[2], 'fissionFragmentType')
        return [Loc(a[1], T), Loc(a[2], T), Loc(st.at(t, 'Ac0'), I32), Loc(st.at(t, 'Ac'), I32), Loc(st.at(t, 'labVelocities_pfn', 0), T_arr3(), 'all')]
    def post(s, ctx, a, old, new, ret):
        nu = sub(new.ld(a[0], 'Ac0'), new.ld(a[0], 'Ac'))
        import frag
        from kin import mass
        out = [('at most 3 pre-fission neutrons', band(cmp('ge', nu, 0), cmp('le', nu, 3)))]
        for f in a[1:3]:
            F = lambda m: new.ld(f, m)
            out += [('a fragment is a nucleus', band(cmp('ge', F('Z'), 1), cmp('le', F('Z'), 129), cmp('ge', F('A'), add(F('Z'), 10)), cmp('lt', F('A'), 1000))), ('the spin is not negative and in range', band(cmp('ge', F('spin'), 0), cmp('lt', F('spin'), 50))), ('the parity is 1 or -1', frag.pm1(F('parity'))), ('the excitation energy is not negative', cmp('ge', F('U'), 0))]
            for n in range(11): out.append(('mass positive', cmp('gt', mass(F('Z'), sub(F('A'), n)), 0)))
        return out
    def ghost(s, ctx, a, g, old, ret):
        if not ctx.dry: ctx.gen = (a[0], a[1], a[2])
def T_arr3(): return T('array', n=3, el=DBL)
class FFCtorT(Contract):
    name = 'FissionFragments::FissionFragments'; trusted = True
    def ghost(s, ctx, a, g, old, ret):
        if ctx.dry: return
        if not hasattr(ctx, 'ffmade'): ctx.ffmade = []
        if len(a) > 2: ctx.ffmade.append((a[1], a[2]))
NMASS = snap(Fraction('1.00866491578') * Fraction('931.494013'))

def lib_ready(ctx, st):
    """what the first event sets up for all later ones"""
    from grid import Dims
    d = Dims(ctx, st)
    return band(cmp('eq', d.NB, 2500), cmp('eq', d.MJ, 50), cmp('eq', d.NLEV, 200), cmp('eq', d.DE, Fraction(1, 20)), cmp('eq', st.ld(GLOB(ctx, 'ctl'), 'print_init_pop'), 0))
READERS = ['readDiscreteLevelData', 'readkcksystdat', 'readMasses', 'readDeformations', 'readTemperatures', 'readLDP', 'readAnisotropy', 'readPreEqAngularDistributionParameters', 'readRTA', 'readSpinScaling', 'readPreeqData']
class Initialization(Contract):
    name = 'cgmfEvent::initialization'
    def make(s, ctx): return [OBJ(ctx, 'cgmfEvent', 'event')]
    def uses(s): return [T_(r) for r in READERS]
    def frame(s, ctx, a): return [Loc(GLOB(ctx, x), I32) for x in ('MAX_ENERGY_BIN', 'MAX_J', 'MAX_LEVELS')] + [Loc(GLOB(ctx, x), DBL) for x in ('ENERGY_BIN', 'CONTINUUM_LOWER_CUT')] + [Loc(GLOB(ctx, 'ctl'), find_struct(ctx, 'Calculation'))]
    def post(s, ctx, a, old, new, ret): return [('the grid and array dimensions are set', lib_ready(ctx, new))]

class EventCtor(Contract):
    name = 'cgmfEvent::cgmfEvent'; nparams = 5
    def pre(s, ctx, a, st): return [('the library is set up unless this is the first event', bor(cmp('ne', st.ld(Ptr(ctx.gl('firstcalc', 'libcgmf/src/cgmfEvents.cpp'), (0,))), 0), lib_ready(ctx, st)))]
    def make(s, ctx):
        return [OBJ(ctx, 'cgmfEvent', 'event'), z3.Int('isotope'), z3.Real('eng'), z3.Real('time'), z3.Real('timew')]
    def uses(s):
        import cascade
        return [CheckInput(), Initialization(), T_('cgmAllocateMemory'), cascade.MainFission(), GenHistT(), FFCtorT(), T_('FissionFragments::~FissionFragments')]
    def frame(s, ctx, a): return None
    def post(s, ctx, a, old, new, ret):
        ev = a[0]
        E = lambda *p: new.ld(ev, *p)
        i = z3.Int('q')
        out = [('only a supported reaction yields an event', admissible(a[1], a[2])),
               ('the event records its reaction', band(cmp('eq', E('ZAIDt'), a[1]), cmp('eq', E('incidentEnergy'), a[2]))),
               ('the neutron multiplicity is the sum over the fragments', cmp('eq', E('neutronNu'), add(E('eventLF', 'nu'), E('eventHF', 'nu')))),
               ('the photon multiplicity is the sum over the fragments', cmp('eq', E('photonNu'), add(E('eventLF', 'nug'), E('eventHF', 'nug'))))]
        for nu, ms, k in (('nu', list(NEUT.values())[:4] + list(CMN.values()), 'neutron'), ('nug', list(PHOT.values()), 'photon')):
            nl, nh = E('eventLF', nu), E('eventHF', nu)
            for m in ms:
                tm = a[3] if m == 'photonAges' else Fraction(0)
                out.append(('%s: the particles of the light fragment come first, each with its own value' % m, bimp(band(cmp('ge', i, 0), cmp('lt', i, nl)), cmp('eq', E(m, i), add(tm, E('eventLF', m, i))))))
                out.append(('%s: the particles of the heavy fragment follow, each with its own value' % m, bimp(band(cmp('ge', i, 0), cmp('lt', i, nh)), cmp('eq', E(m, add(nl, i)), add(tm, E('eventHF', m, i))))))
        if not hasattr(ctx, 'gen') or not hasattr(ctx, 'decays'): return [('the fragments are generated and decayed', False)]
        ff, lf, hf = ctx.gen
        mk = getattr(ctx, 'ffmade', [])
        out.append(('one sampler is set up for the reaction requested', band(len(mk) == 1, *[band(cmp('eq', x, a[1]), cmp('eq', y, a[2])) for x, y in mk])))
        ev_of = {'light': ('eventLF', lf), 'heavy': ('eventHF', hf)}
        for side, (m, src) in ev_of.items():
            tgt = new.at(ev, m)
            ds = [d for d in ctx.decays if same(d[1], tgt)]
            out.append(('the %s fragment is decayed exactly once' % side, len(ds) == 1))
            if ds: out.append(('the %s fragment is decayed within the requested time window' % side, bor(cmp('eq', ds[0][4], a[4]), band(cmp('le', ds[0][4], 0), cmp('le', a[4], 0)))))
            for x in INIT:
                out.append(('the %s fragment record has the sampled %s' % (side, x), cmp('eq', E(m, x), new.ld(src, x))))
                if ds: out.append(('the %s fragment decays from the sampled %s' % (side, x), cmp('eq', ds[0][2][x], new.ld(src, x))))
            for i3 in range(3):
                out.append(('the %s fragment record has the sampled momentum (%d)' % (side, i3), cmp('eq', E(m, 'preFragmentMomentum', i3), new.ld(src, 'preMomentum', i3))))
                if ds: out.append(('the %s fragment decays with the sampled momentum (%d)' % (side, i3), cmp('eq', ds[0][3][i3], new.ld(src, 'preMomentum', i3))))
            pm = [E(m, 'preFragmentMomentum', x) for x in range(3)]
            p2 = add(add(mul(pm[0], pm[0]), mul(pm[1], pm[1])), mul(pm[2], pm[2]))
            from models import m_sqrt
            for x, c in enumerate('uvw'):
                out.append(('direction cosine %s of the %s fragment is that of its momentum' % (c, side), bimp(cmp('gt', p2, 0), cmp('eq', mul(E(m, 'fragmentDircos' + c), m_sqrt(ctx, p2)), pm[x]))))
        npre = E('preFissionNeutronNu')
        out.append(('as many pre-fission neutrons as the compound nucleus lost', cmp('eq', npre, sub(new.ld(ff, 'Ac0'), new.ld(ff, 'Ac')))))
        v = [new.ld(ff, 'labVelocities_pfn', i, x) for x in range(3)]
        v2 = add(add(mul(v[0], v[0]), mul(v[1], v[1])), mul(v[2], v[2]))
        inp = band(cmp('ge', i, 0), cmp('lt', i, npre))
        out.append(('pre-fission neutron energies are lab kinetic energies', bimp(inp, cmp('eq', E('preFissionNeutronEnergies', i), mul(mul(Fraction(1, 2), NMASS), v2)))))
        for x, c in enumerate('uvw'):
            out.append(('direction cosine %s of a pre-fission neutron is that of its velocity' % c, bimp(band(inp, cmp('gt', v2, 0)), cmp('eq', mul(E('preFissionNeutronDircos' + c, i), m_sqrt(ctx, v2)), v[x]))))
        out.append(('the library stays set up for the next event', band(lib_ready(ctx, new), cmp('eq', new.ld(Ptr(ctx.gl('firstcalc', 'libcgmf/src/cgmfEvents.cpp'), (0,))), 0))))
        out.append(('every neutron is emitted at the time of fission', bimp(band(cmp('ge', i, 0), cmp('lt', i, E('neutronNu'))), cmp('eq', E('neutronAges', i), a[3]))))
        return out

class YieldsCtor(Contract):
    """yields mode: nothing is sampled or written for an unsupported reaction"""
    name = 'cgmfYields::cgmfYields'; nparams = 5
    def make(s, ctx):
        return [OBJ(ctx, 'cgmfEvent', 'yields'), z3.Int('isotope'), z3.Real('eng'), z3.Int('nevents'), Ptr(Region('outfilename', None, 1, 'param'), (0,))]
    def uses(s): return [CheckInput(), T_('cgmfEvent::cgmfEvent'), GenHistT(), FFCtorT(), T_('FissionFragments::~FissionFragments')]
    def pre(s, ctx, a, st): return [('nevents >= 0', cmp('ge', a[3], 0))]
    def frame(s, ctx, a): return None
    def post(s, ctx, a, old, new, ret):
        mk = getattr(ctx, 'ffmade', [])
        return [('only a supported reaction yields fragments', admissible(a[1], a[2])), ('one sampler is set up for the reaction requested', band(len(mk) == 1, *[band(cmp('eq', x, a[1]), cmp('eq', y, a[2])) for x, y in mk]))]
