"""Contracts for the Monte Carlo cascade (specmc.cpp): recording the emitted particles"""
from contract import *
import kin, grid, dens
from kin import mass, ME, MN, sq3, GetMassExcess, MassExcess, Boost, ARR3
from models import m_sqrt
from grid import Dims, grid_frame, grid_facts, EnergyBin

SMC = 'libcgmf/src/specmc.cpp'
NNUC = 10           # MAX_COMPOUND
CE = z3.Int('chainEnd')   # ghost: index of the last nucleus of the decay chain
def IN(c): return band(cmp('ge', c, 0), cmp('le', c, CE))
def chain_fits(): return [('the decay chain fits the array of nuclei', band(cmp('ge', CE, 0), cmp('lt', CE, NNUC)))]
GAMMA, NEUTRON = 0, 1
CN = z3.Function('cntNeutron', I, I)
CG = z3.Function('cntPhoton', I, I)

class Hist:
    """the decay history hs[0..np)"""
    def __init__(s, ctx, st):
        s.ctx, s.st = ctx, st
        s.hs = Ptr(ctx.gl('hs', SMC), (0,)); s.np = st.ld(Ptr(ctx.gl('np', SMC), (0,)))
        s.gts = Ptr(ctx.gl('gammaTimeStamp', SMC), (0,))
    def e(s, q, *p): return s.st.ld(Ptr(s.hs.r, (0, q)), *p)
    def kind(s, q): return s.e(q, 'id')
    def energy(s, q): return s.e(q, 'ep')
    def disc(s, q): return cmp('ne', s.e(q, 'mp', 'l'), 0)
    def time(s, q): return s.st.ld(Ptr(s.gts.r, (0, q)))
    def isn(s, q): return cmp('eq', s.kind(q), NEUTRON)
    def isg(s, q): return cmp('eq', s.kind(q), GAMMA)

class RecordParticles(Contract):
    name = 'recordEmittedParticlesFission'; src = SMC
    N = 100
    def make(s, ctx):
        s.fe = OBJ(ctx, 'fissionEventType', 'fe')
        return [s.fe]
    def uses(s): return [GetMassExcess(), MassExcess(), Boost()]
    def before(s, ctx, a):
        h = Hist(ctx, State(ctx, Guard(), ctx.seq))
        def rule(F, pred):
            def r(t):
                x = z3.simplify(t.arg(0) - 1)
                return [z3.Implies(t.arg(0) <= 0, t == 0), z3.Implies(t.arg(0) > 0, t == F(x) + zi(zb(pred(x))))]
            return r
        ctx.rules['cntNeutron'] = rule(CN, h.isn); ctx.rules['cntPhoton'] = rule(CG, h.isg)
        en = h.energy(z3.Int('zz')).decl().name()
        ctx.rules[en] = lambda t: t >= 0
    def pre(s, ctx, a, st):
        h = Hist(ctx, st); fe = a[0]
        n0 = h.e(0, 'mp', 'n')
        Z, A = st.ld(fe, 'Z'), st.ld(fe, 'A')
        ncl = GLOB(ctx, 'ncl')
        nc = ctx.pointee(ncl, find_struct(ctx, 'Nucleus'), NNUC)
        za = lambda m: st.ld(Ptr(nc.r, nc.path[:-1] + (n0,)), 'za', m)
        out = [('1 <= np <= 100', band(cmp('ge', h.np, 1), cmp('le', h.np, s.N))), ('the nucleus index is valid', band(cmp('ge', n0, 0), cmp('lt', n0, NNUC))),
               ('the history starts at the fragment', band(cmp('eq', za('Z'), Z), cmp('eq', za('A'), A))),
               ('KEpost starts at zero', cmp('eq', st.ld(fe, 'KEpost'), 0))]
        for n in range(11): out.append(('mass positive', cmp('gt', mass(Z, sub(A, n)), 0)))
        return out
    def frame(s, ctx, a):
        import api
        return api.fe_frame(ctx, a[0])
    def hooks(s, ctx, a):
        q, r = z3.Int('q'), z3.Int('r')
        h = Hist(ctx, State(ctx, Guard(), ctx.seq))
        def hk(ctx, g, fr, hd, L):
            out = []
            if len(L.ints()) < 2: return out            # only loops that count something
            k = zi(L.k)
            for F, pred, nm, mx in ((CN, h.isn, 'neutron', 10), (CG, h.isg, 'photon', 50)):
                inq = zb(band(cmp('ge', q, 0), cmp('lt', q, k), pred(q)))
                out.append(('count', F(k) >= 0)); out.append(('count <= k', F(k) <= k))
                out.append(('earlier particles come first', z3.Implies(inq, z3.And(F(q) < F(k), F(q) >= 0))))
                for n, v in L.ints():
                    out.append((n + ' counts', zi(v) == F(k)))
                    out.append((n + ' limit', zi(v) <= mx))
                for key, pat in L.loc1():
                    out.append(('%s holds the energies' % key[0].name, z3.Implies(inq, zr(L.rd(key, pat, F(q))) == zr(h.energy(q)))))
                    out.append(('%s holds the times' % key[0].name, z3.Implies(inq, zr(L.rd(key, pat, F(q))) == zr(ite(h.disc(q), h.time(q), Fraction(0))))))
                    out.append(('%s untouched' % key[0].name, z3.Implies(z3.And(q >= 0, F(q) >= F(k), F(q) < mx), zr(L.rd(key, pat, F(q))) == 0)))
                    out.append(('%s is not negative' % key[0].name, z3.Implies(z3.And(r >= 0, r < F(k)), zr(L.rd(key, pat, r)) >= 0)))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        fe = a[0]; h = Hist(ctx, old)
        q = z3.Int('q'); m = sub(h.np, 1)
        E = lambda *p: new.ld(fe, *p)
        inn = band(cmp('ge', q, 0), cmp('lt', q, m), h.isn(q)); ing = band(cmp('ge', q, 0), cmp('lt', q, m), h.isg(q))
        out = [('every neutron of the history is counted', cmp('eq', E('nu'), CN(zi(m)))), ('every photon of the history is counted, conversion electrons are not', cmp('eq', E('nug'), CG(zi(m)))),
               ('at most 10 neutrons', band(cmp('ge', E('nu'), 0), cmp('le', E('nu'), 10))), ('at most 50 photons', band(cmp('ge', E('nug'), 0), cmp('le', E('nug'), 50))),
               ('neutrons are recorded in order of emission with their c.m. energies', bimp(inn, cmp('eq', E('cmNeutronEnergies', CN(q)), h.energy(q)))),
               ('photons are recorded in order of emission with their c.m. energies', bimp(ing, cmp('eq', E('cmPhotonEnergies', CG(q)), h.energy(q)))),
               ('a photon of a discrete level carries its emission time, a continuum photon time zero', bimp(ing, cmp('eq', E('photonAges', CG(q)), ite(h.disc(q), h.time(q), Fraction(0)))))]
        r = z3.Int('r')
        for nm, nu, k in (('neutron', 'nu', 'Energies'), ('cmNeutron', 'nu', 'Energies'), ('photon', 'nug', ''), ('cmPhoton', 'nug', '')):
            if nu == 'nug': r = z3.Int('gq')
            inr = band(cmp('ge', r, 0), cmp('lt', r, E(nu)), cmp('gt', E(nm + 'Energies', r), 0))
            u = [E(nm + 'Dircos' + c, r) for c in 'uvw']
            out.append(('the direction cosines of a %s have unit length' % nm, bimp(inr, cmp('eq', sq3(u), Fraction(1)))))
        for i in range(3): out.append(('initial momentum (%d) is kept' % i, cmp('eq', E('preFragmentMomentum', i), old.ld(fe, 'preFragmentMomentum', i))))
        return out

# ------------------------------------------------------------------ level schemes
ISBR = z3.Function('isBranch', I, I, I, B)          # isBranch(c,i,f): level i of nucleus c has a branch to level f
class Nuc:
    """the nuclei of the decay chain"""
    def __init__(s, ctx, st):
        s.ctx, s.st = ctx, st
        s.p = ctx.pointee(GLOB(ctx, 'ncl'), find_struct(ctx, 'Nucleus'), NNUC)
        z = Ptr(s.p.r, s.p.path[:-1] + (z3.Int('zz'),))
        grid.nucleus_arrays(ctx, z)
    def at(s, c): return Ptr(s.p.r, s.p.path[:-1] + (c,))
    def v(s, c, *p): return s.st.ld(s.at(c), *p)
    def energy(s, c, i): return s.v(c, 'lev', i, 'energy')
    def fstate(s, c, i, j):
        from models import vec_cells
        q = s.st.at(s.at(c), 'lev', i, 'fstate')
        sh, ix = vec_cells(q, '$v')
        return s.ctx.read(q.r, sh + ('*',), ix + (j,), INT(32), s.st.g, s.st.seq)
    def vsize(s, c, i, m):
        from models import vec_cells
        q = s.st.at(s.at(c), 'lev', i, m)
        sh, ix = vec_cells(q, '$n')
        return s.ctx.read(q.r, sh, ix, INT(64), s.st.g, s.st.seq)
BRDEF = 'definition of a branch'
def level_facts(ctx, st):
    """level scheme data as delivered by the reader: branches lead to lower levels of lower or equal energy (for arbitrary nucleus cc, level ii, branch jj)"""
    n = Nuc(ctx, st)
    c, i, j = z3.Int('cc'), z3.Int('ii'), z3.Int('jj')
    t = n.fstate(c, i, j)
    ng = n.v(c, 'lev', i, 'ngamma')
    ok = band(IN(c), cmp('ge', j, 0), cmp('lt', j, ng), cmp('gt', i, 0), cmp('lt', i, n.v(c, 'ndisc')))
    out = [(t, 'a branch leads to a lower level', bimp(ok, band(cmp('ge', t, 0), cmp('lt', t, i), cmp('le', n.energy(c, t), n.energy(c, i))))),
           (t, BRDEF, bimp(ok, ISBR(c, i, zi(t))))]
    for m in ('fstate', 'branch', 'gratio'):
        sz = n.vsize(c, i, m)
        out.append((sz, 'the %s table has an entry per branch' % m, bimp(band(IN(c), cmp('gt', i, 0), cmp('lt', i, n.v(c, 'ndisc'))), cmp('ge', sz, ng))))
    return out
BV = [z3.Int(x) for x in ('cc', 'ii', 'jj')]
def fact_rules(ctx, facts):
    for t, nm, f in facts:
        assert z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED, t
        pos = [(i, v) for i in range(t.num_args()) for v in BV if t.arg(i).eq(v)]
        add_rule(ctx, t.decl().name(), lambda a, f=zb(f), pos=pos: z3.substitute(f, *[(v, a.arg(i)) for i, v in pos]))
def level_rules(ctx):
    fact_rules(ctx, level_facts(ctx, State(ctx, Guard(), ctx.seq)))
    ctx.rules['m_log'] = lambda t: z3.Implies(t.arg(0) < 1, t <= 0)

class GammaCascade(Contract):
    """a cascade between discrete levels"""
    name = 'mcGammaCascade'; src = SMC; bound = ('q',)
    def make(s, ctx):
        r = Region('spc', PTR, 4, 'param')
        ctx.pointee(Ptr(r, (0,)), DBL, Dims(ctx).NB)
        return [z3.Int('c0'), z3.Int('i0'), Ptr(r, (0,))]
    def before(s, ctx, a): level_rules(ctx)
    def uses(s): return [FindBinT()]
    def pre(s, ctx, a, st):
        h = Hist(ctx, st)
        return chain_fits() + universal_pre(s, level_facts(ctx, st)) + [('the history has room', band(cmp('ge', h.np, 0), cmp('lt', h.np, 100))), ('the nucleus exists', band(IN(a[0]))), ('the level exists', band(cmp('ge', a[1], 0), cmp('lt', a[1], Nuc(ctx, st).v(a[0], 'ndisc')), cmp('le', Nuc(ctx, st).v(a[0], 'ndisc'), Dims(ctx).NLEV)))]
    def frame(s, ctx, a):
        h = Hist(ctx, s.entry(ctx))
        T_ = find_struct(ctx, 'MCHistory')
        return [Loc(Ptr(ctx.gl('np', SMC), (0,)), I32), Loc(Ptr(h.hs.r, (0, h.np)), T_, sub(100, h.np)), Loc(Ptr(h.gts.r, (0, h.np)), DBL, sub(100, h.np)), Loc(State(ctx, Guard()).at(a[2], 0, 0, et=PTR), DBL, 'rows')]
    def inv(s, ctx, a, old, new, lvl):
        """what holds for the steps recorded so far when the cascade has reached level lvl"""
        h0, h = Hist(ctx, old), Hist(ctx, new); n = Nuc(ctx, old)
        q = z3.Int('q'); c0, i0 = a[0], a[1]
        n0, n1 = h0.np, h.np
        inq = band(cmp('ge', q, n0), cmp('lt', q, n1))
        k = h.e(q, 'mp', 'k')
        last = cmp('eq', add(q, 1), n1)
        nk = ite(last, lvl, h.e(add(q, 1), 'mp', 'k'))
        win = new.ld(Ptr(ctx.gl('time_coincidence_window', SMC), (0,)))
        out = [('the history grows', band(cmp('ge', n1, n0), cmp('lt', n1, 100))),
               ('the level reached exists and is not above the start', band(cmp('ge', lvl, 0), cmp('le', lvl, i0))),
               ('without emission the level is unchanged', bimp(cmp('eq', n0, n1), cmp('eq', lvl, i0))),
               ('the first step starts at the given level', bimp(cmp('gt', n1, n0), cmp('eq', h.e(n0, 'mp', 'k'), i0))),
               ('every step starts from a discrete level of this nucleus', bimp(inq, band(cmp('eq', h.e(q, 'mp', 'n'), c0), cmp('ne', h.e(q, 'mp', 'l'), 0), cmp('gt', k, 0), cmp('le', k, i0)))),
               ('the state of a step has the energy of its level', bimp(inq, cmp('eq', h.e(q, 'mp', 'e'), n.energy(c0, k)))),
               ('every step is a photon or a conversion electron', bimp(inq, bor(cmp('eq', h.kind(q), 0), cmp('eq', h.kind(q), s.IC(ctx))))),
               ('the next level of a step exists', bimp(inq, band(cmp('ge', nk, 0), cmp('lt', nk, k)))),
               ('the energy of a step is the difference of the level energies', bimp(inq, cmp('eq', h.energy(q), sub(n.energy(c0, k), n.energy(c0, nk))))),
               ('a step follows a branch of its level', bimp(inq, ISBR(zi(c0), zi(k), zi(nk)))),
               ('no step has a negative energy', bimp(inq, cmp('ge', h.energy(q), 0))),
               ('emission times are not negative', bimp(inq, cmp('ge', h.time(q), 0))),
               ('emission times do not decrease', bimp(band(inq, bnot(last)), cmp('le', h.time(q), h.time(add(q, 1))))),
               ('a level without half-life decays at once', bimp(band(inq, cmp('le', n.v(c0, 'lev', k, 'halflife'), 0)), cmp('eq', h.time(q), ite(cmp('eq', q, n0), Fraction(0), h.time(sub(q, 1)))))),
               ('no photon is emitted outside the time window', bimp(band(inq, cmp('gt', win, 0)), cmp('le', h.time(q), win)))]
        return out
    def IC(s, ctx): return 8
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, hd, L):
            if not any('hs' in key[0].name for key, p in L.arrays): return []
            st = State(ctx, g); h = Hist(ctx, st); out = []
            n0 = Hist(ctx, old).np
            for n, v in L.ints():
                out += [(n + ': ' + x, zb(c)) for x, c in s.inv(ctx, a, old, st, v)]
            for n, v in L.reals():
                out.append((n + ' time', zb(cmp('ge', v, 0))))
                tl = ite(cmp('gt', h.np, n0), h.time(sub(h.np, 1)), Fraction(0))
                out.append((n + ' clock does not run back', zb(cmp('ge', v, tl))))
                for m, lv in L.ints():
                    out.append((n + ' clock stands at level ' + m, zb(bimp(cmp('le', Nuc(ctx, old).v(a[0], 'lev', lv, 'halflife'), 0), cmp('eq', v, tl)))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        win = new.ld(Ptr(ctx.gl('time_coincidence_window', SMC), (0,)))
        return s.inv(ctx, a, old, new, ret) + [('the cascade stops above the ground state only if a time window is set', bor(cmp('eq', ret, 0), cmp('gt', win, 0)))]
class FindBinT(Contract):
    """index into the spectrum arrays (used for tallies only); particle energies are taken to stay below the end of the grid (124.95 MeV)"""
    name = 'specFindEnergyBin'; trusted = True
    def post(s, ctx, a, old, new, ret): return [('index', band(cmp('ge', ret, -1), cmp('lt', ret, Dims(ctx).NB)))]

def nuclei_ok(ctx, st):
    """the decay chain as set up by specMCMainFission / statSetupInitSystem and the level reader, for all nuclei (instantiated per term)"""
    n = Nuc(ctx, st); d = Dims(ctx)
    c = z3.Int('cc'); i = z3.Int('ii')
    out = []
    ok = IN(c)
    nd = n.v(c, 'ndisc')
    out.append((nd, 'every nucleus has discrete levels', bimp(ok, band(cmp('ge', nd, 1), cmp('le', nd, d.NLEV)))))
    stt, nx = n.v(c, 'cdt', 1, 'status'), n.v(c, 'cdt', 1, 'next')
    on = cmp('ne', stt, 0)
    out.append((stt, 'a neutron leads to the next nucleus of the chain', bimp(band(ok, on), band(cmp('eq', nx, add(c, 1)), IN(nx)))))
    e = n.energy(c, i); inl = band(ok, cmp('ge', i, 0), cmp('lt', i, nd))
    out.append((e, 'level energies lie between zero and that of the last level', bimp(inl, band(cmp('ge', e, 0), cmp('le', e, n.energy(c, sub(nd, 1)))))))
    sp = n.v(c, 'lev', i, 'spin')
    out.append((sp, 'level spins are known', bimp(inl, band(cmp('ge', sp, 0), cmp('le', sp, 50)))))
    return out
def nuclei_rules(ctx): fact_rules(ctx, nuclei_ok(ctx, State(ctx, Guard(), ctx.seq)))
def universal_pre(s, facts):
    """preconditions that hold for every nucleus, level and branch: assumed per term in the body, to be shown for arbitrary ones at a call"""
    return [] if s.verifying else [(nm, f) for t, nm, f in facts]

class Pt:
    """an MCPoint"""
    def __init__(s, st, p): s._st, s._p = st, p
    def __getattr__(s, m): return s._st.ld(s._p, m)
    def disc(s): return cmp('ne', s._st.ld(s._p, 'l'), 0)

def level_search(ctx, L):
    """a loop that looks for a discrete level"""
    out = []
    for n, v in L.ints():
        out.append((n + ' level found', zb(bimp(cmp('ge', L.k, 1), cmp('ge', v, 0)))))
        out.append((n + ' below', zb(band(cmp('ge', v, -1), cmp('lt', v, L.k)))))
        for m, w in L.reals(): out.append((n + m + ' not yet', zb(bimp(cmp('eq', L.k, 0), cmp('eq', w, 100)))))
    return out
class FindNext(Contract):
    """the next state of the cascade is a state of the parent or, if the neutron channel is open, of the daughter"""
    name = 'mcFindNext'; src = SMC
    def make(s, ctx): return [OBJ(ctx, 'MCPoint', 'ret'), z3.Int('c0'), z3.Int('c1'), z3.Int('jspin'), z3.Int('parity')]
    def before(s, ctx, a): nuclei_rules(ctx)
    def pre(s, ctx, a, st):
        n = Nuc(ctx, st); d = Dims(ctx); c0, c1 = a[1], a[2]
        on = cmp('ne', n.v(c0, 'cdt', 1, 'status'), 0)
        out = chain_fits() + d.pre() + [('the nucleus exists', band(IN(c0))), ('the daughter exists', bimp(on, band(IN(c1)))),
                ('the spin index is valid', band(cmp('ge', a[3], 0), cmp('lt', a[3], d.MJ)))]
        for c, g in ((c0, True), (c1, on)):
            nc, jm = n.v(c, 'ncont'), n.v(c, 'jmax')
            out.append(('the grid of nucleus %s fits the arrays' % c, bimp(g, band(cmp('ge', nc, 0), cmp('lt', nc, d.NB), cmp('ge', jm, 0), cmp('lt', jm, d.MJ)))))
        return out + universal_pre(s, nuclei_ok(ctx, st))
    def frame(s, ctx, a): return [Loc(a[0], find_struct(ctx, 'MCPoint'))]
    def hooks(s, ctx, a):
        def hk(ctx, g, fr, h, L):
            out = []
            for n, v in L.reals():
                for x in ctx.rngs[:1]: out.append((n + ' has not reached the random number', zb(cmp('lt', v, x))))
            return out + level_search(ctx, L)
        return [hk]
    def post(s, ctx, a, old, new, ret):
        n = Nuc(ctx, old); m = Pt(new, a[0]); c0, c1 = a[1], a[2]
        on = cmp('ne', n.v(c0, 'cdt', 1, 'status'), 0)
        par = cmp('eq', m.n, c0); dau = band(on, cmp('eq', m.n, c1))
        D = m.disc()
        return [('the next state belongs to the parent or to the daughter of an open neutron channel', bor(par, dau)),
                ('a discrete state is a level with its energy', bimp(D, band(cmp('ge', m.k, 0), cmp('lt', m.k, n.v(m.n, 'ndisc')), cmp('eq', m.e, n.energy(m.n, m.k))))),
                ('a continuum state is a bin with its energy', bimp(bnot(D), band(cmp('ge', m.k, 0), cmp('lt', m.k, n.v(m.n, 'ncont')), cmp('eq', m.e, n.v(m.n, 'excitation', m.k))))),
                ('a photon to the continuum lowers the energy', bimp(band(bnot(D), bnot(dau)), cmp('ge', m.k, 1))),
                ('a level of the daughter is populated', bimp(band(D, bnot(par)), cmp('gt', n.v(m.n, 'lpop', m.k), 0))),
                ('the spin index and parity of a continuum state are valid', bimp(bnot(D), band(cmp('ge', m.j, 0), cmp('le', m.j, n.v(m.n, 'jmax')), bor(cmp('eq', m.p, 1), cmp('eq', m.p, -1)))))]

class SpectraT(Contract):
    """distributes the population of the top bin over the states of the nucleus and of its neutron daughter"""
    name = 'spectraBinary'; trusted = True; bound = ('k',)
    def pops(s, ctx, a):
        n = Nuc(ctx, s.entry(ctx)); st = n.st; out = []
        c1 = n.v(a[0], 'cdt', 1, 'next')
        for c in (a[0], c1):
            p = n.at(c)
            out += [Loc(st.at(p, 'pop', 0, 0), find_struct(ctx, 'Parity'), 'rows'), Loc(st.at(p, 'lpop', 0), DBL, 'all'), Loc(st.at(p, 'jmax'), I32)]
        return out
    def frame(s, ctx, a): return s.pops(ctx, a) + [Loc(State(ctx, Guard()).at(a[2], 0, 0, et=PTR), DBL, 'rows')]
    def post(s, ctx, a, old, new, ret):
        n0, n = Nuc(ctx, old), Nuc(ctx, new); d = Dims(ctx); c0 = a[0]; c1 = n0.v(c0, 'cdt', 1, 'next')
        on = cmp('ne', n0.v(c0, 'cdt', 1, 'status'), 0); k = z3.Int('k')
        jm = lambda c: band(cmp('ge', n.v(c, 'jmax'), 0), cmp('lt', n.v(c, 'jmax'), d.MJ))
        return [('spins fit the arrays', jm(c0)), ('spins of the daughter fit the arrays', bimp(on, jm(c1))),
                ('no neutron to a closed level', bimp(band(on, cmp('ge', k, 0), cmp('lt', k, n0.v(c1, 'ndisc')), cmp('gt', n.v(c1, 'lpop', k), 0)),
                                                      cmp('ge', n0.v(c0, 'excitation', 0), add(n0.v(c0, 'cdt', 1, 'binding_energy'), n0.energy(c1, k)))))]
class EvapT(SpectraT):
    name = 'specEvaporationBin'

def decay_frame(ctx, st, p):
    """what the decay of one state may change in any nucleus of the chain: energy grid, populations, level densities"""
    out = [Loc(l.p, l.ty, 'any') for l in grid_frame(ctx, p, st)]
    out += [Loc(st.at(p, 'density', 0, 0), find_struct(ctx, 'Parity'), 'any'), Loc(st.at(p, 'ldp'), find_struct(ctx, 'LevelDensity'), 'any')]
    out += [Loc(st.at(p, 'jmax'), I32, 'any'), Loc(st.at(p, 'max_energy'), DBL, 'any')]
    return out
class HistoryLoop(Contract):
    name = 'mcHistoryLoop'; src = SMC; bound = ('q',)
    def make(s, ctx):
        r = Region('spc', PTR, 4, 'param'); ctx.pointee(Ptr(r, (0,)), DBL, Dims(ctx).NB)
        s.m = OBJ(ctx, 'MCPoint', 'minit')
        return [s.m, OBJ(ctx, 'Pdata', 'pdt', 2), Ptr(r, (0,))]
    def uses(s): return [EnergyBin(), dens.SetupDensity(), SpectraT(), EvapT(), FindNext(), GammaCascade(), FindBinT()]
    def before(s, ctx, a): level_rules(ctx); nuclei_rules(ctx)
    def pre(s, ctx, a, st):
        h = Hist(ctx, st); m = Pt(st, a[0]); n = Nuc(ctx, st); d = Dims(ctx)
        c = m.n
        return chain_fits() + universal_pre(s, level_facts(ctx, st)) + universal_pre(s, nuclei_ok(ctx, st)) + d.pre() + [('the history is empty', cmp('eq', h.np, 0)), ('the nucleus exists', IN(c)), ('the initial state lies in the continuum', cmp('eq', m.l, 0)),
            ('the spin index is valid', band(cmp('ge', m.j, 0), cmp('lt', m.j, d.MJ))),
            ('the initial energy is not below the last level', cmp('ge', m.e, n.energy(c, sub(n.v(c, 'ndisc'), 1))))]
    def frame(s, ctx, a):
        h = Hist(ctx, s.entry(ctx)); T_ = find_struct(ctx, 'MCHistory')
        out = [Loc(Ptr(ctx.gl('np', SMC), (0,)), I32), Loc(Ptr(h.hs.r, (0, 0)), T_, 'all'), Loc(Ptr(h.gts.r, (0, 0)), DBL, 'all'), Loc(s.entry(ctx).at(a[2], 0, 0, et=PTR), DBL, 'rows')]
        n = Nuc(ctx, s.entry(ctx)); p = n.at(0); st = n.st
        return out + decay_frame(ctx, st, p)
    def inv(s, ctx, a, old, new, cur):
        """the steps recorded so far, the cascade having reached the state cur = (n, e)"""
        h = Hist(ctx, new); n = Nuc(ctx, old); q = z3.Int('q'); m0 = Pt(old, a[0])
        N = h.np
        if cur is None:                     # the finished history: the last entry is the final state
            N = sub(h.np, 1); cur = h.e(N, 'mp', 'n'), h.e(N, 'mp', 'e')
        inq = band(cmp('ge', q, 0), cmp('lt', q, N)); last = cmp('eq', add(q, 1), N)
        cn, ce = cur
        nn = ite(last, cn, h.e(add(q, 1), 'mp', 'n')); ne = ite(last, ce, h.e(add(q, 1), 'mp', 'e'))
        qn, qe = h.e(q, 'mp', 'n'), h.e(q, 'mp', 'e')
        B_ = n.v(qn, 'cdt', 1, 'binding_energy')
        neu = h.isn(q)
        return [('the history grows', band(cmp('ge', N, 0), cmp('lt', N, 100))),
                ('the cascade starts from the initial state', bimp(cmp('gt', N, 0), band(cmp('eq', h.e(0, 'mp', 'n'), m0.n), cmp('eq', h.e(0, 'mp', 'e'), m0.e)))),
                ('the cascade starts with the spin and parity of the initial state', bimp(band(cmp('gt', N, 0), bnot(h.disc(0))), band(cmp('eq', h.e(0, 'mp', 'j'), m0.j), cmp('eq', h.e(0, 'mp', 'p'), m0.p)))),
                ('nothing emitted, nothing lost', bimp(cmp('eq', N, 0), band(cmp('eq', cn, m0.n), cmp('eq', ce, m0.e)))),
                ('the state is that of an existing nucleus', band(IN(cn))),
                ('every step starts from an existing nucleus', bimp(inq, band(IN(qn)))),
                ('a neutron leads to the next nucleus of the chain', bimp(band(inq, neu), band(cmp('eq', nn, add(qn, 1)), cmp('ne', n.v(qn, 'cdt', 1, 'status'), 0)))),
                ('a photon or conversion electron does not change the nucleus', bimp(band(inq, bnot(neu)), cmp('eq', nn, qn))),
                ('a neutron carries the energy difference less the binding energy', bimp(band(inq, neu), cmp('eq', h.energy(q), sub(sub(qe, ne), B_)))),
                ('a photon or conversion electron carries the energy difference', bimp(band(inq, bnot(neu)), cmp('eq', h.energy(q), sub(qe, ne)))),
                ('no particle has a negative energy', bimp(inq, cmp('ge', h.energy(q), 0))),
                ('only neutrons, photons and conversion electrons are emitted', bimp(inq, bor(neu, h.isg(q), cmp('eq', h.kind(q), 8))))]
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, hd, L):
            if not any('hs' in key[0].name for key, p in L.arrays): return level_search(ctx, L)
            st = State(ctx, g); out = []
            q, hh = z3.Int('q'), Hist(ctx, st)
            out.append(('recorded states lie in the continuum', zb(bimp(band(cmp('ge', q, 0), cmp('lt', q, hh.np)), bnot(hh.disc(q))))))
            for p in s.points(ctx, fr):
                m = Pt(st, p); nm = p.r.name
                out += [(nm + ': ' + x, zb(c)) for x, c in s.inv(ctx, a, old, st, (m.n, m.e))]
                out.append((nm + ' is in the continuum', zb(cmp('eq', m.l, 0))))
                out.append((nm + ' is not below the last level', zb(cmp('ge', m.e, Nuc(ctx, old).energy(m.n, sub(Nuc(ctx, old).v(m.n, 'ndisc'), 1))))))
                out.append((nm + ' spin index', zb(band(cmp('ge', m.j, 0), cmp('lt', m.j, Dims(ctx).MJ)))))
            return out
        return [hk]
    def points(s, ctx, fr):
        """the local variables of type MCPoint"""
        T = find_struct(ctx, 'MCPoint')
        out = []
        for v in fr.env.values():
            if isinstance(v, Ptr) and v.r.kind == 'alloca' and v.r.elty is not None and ctx.tsame(v.r.elty, T) and len(v.path) == 1 and not any(q.r is v.r for q in out): out.append(Ptr(v.r, (0,)))
        return sorted(out, key=lambda q: q.r.uid)
    def post(s, ctx, a, old, new, ret):
        h = Hist(ctx, new); n = Nuc(ctx, old)
        l = sub(h.np, 1); q = z3.Int('q'); win = new.ld(Ptr(ctx.gl('time_coincidence_window', SMC), (0,)))
        inq = band(cmp('ge', q, 0), cmp('lt', q, l))
        out = [('the history ends with a discrete state', band(cmp('ge', h.np, 1), cmp('le', h.np, 100), h.disc(l), cmp('eq', h.energy(l), 0))),
               ('the final state has the energy of its level', cmp('eq', h.e(l, 'mp', 'e'), n.energy(h.e(l, 'mp', 'n'), h.e(l, 'mp', 'k')))),
               ('without time window the cascade ends in the ground state', bor(cmp('eq', h.e(l, 'mp', 'k'), 0), cmp('gt', win, 0)))]
        out += [x for x in s.inv(ctx, a, old, new, None) if x[1] is not None]
        T = h.time(q); D = band(inq, h.disc(q))
        out += [('emission times are not negative', bimp(D, cmp('ge', T, 0))), ('no photon of a discrete level is emitted outside the time window', bimp(band(D, cmp('gt', win, 0)), cmp('le', T, win))),
                ('emission times do not decrease', bimp(band(D, cmp('lt', add(q, 1), l)), cmp('le', T, h.time(add(q, 1))))),
                ('after a discrete level only discrete levels of the same nucleus follow', bimp(D, band(h.disc(add(q, 1)), cmp('eq', h.e(add(q, 1), 'mp', 'n'), h.e(q, 'mp', 'n'))))),
                ('a transition between discrete levels follows a branch of the level', bimp(D, ISBR(zi(h.e(q, 'mp', 'n')), zi(h.e(q, 'mp', 'k')), zi(h.e(add(q, 1), 'mp', 'k')))))]
        return out

# ------------------------------------------------------------------ the start of the cascade
SINGLE = 0
class FixedStart(Contract):
    """the initial state of the cascade is the first populated state of the top bin"""
    name = 'mcFixedStart'; src = SMC
    def make(s, ctx):
        r = Region('p', PTR, Dims(ctx).NB, 'param'); ctx.pointee(Ptr(r, (0,)), find_struct(ctx, 'Parity'), Dims(ctx).MJ)
        return [OBJ(ctx, 'MCPoint', 'ret'), z3.Real('e0'), Ptr(r, (0,))]
    def pre(s, ctx, a, st): return Dims(ctx).pre()
    def frame(s, ctx, a): return [Loc(a[0], find_struct(ctx, 'MCPoint'))]
    def post(s, ctx, a, old, new, ret):
        m = Pt(new, a[0]); P = lambda x: old.ld(old.at(a[2], 0, m.j, et=PTR), x)
        return [('the start lies in the top bin of the first nucleus at the given energy', band(cmp('eq', m.n, 0), cmp('eq', m.k, 0), cmp('eq', m.e, a[1]), cmp('eq', m.l, 0))),
                ('the spin index is valid', band(cmp('ge', m.j, 0), cmp('lt', m.j, Dims(ctx).MJ))),
                ('the start is populated', bor(band(cmp('eq', m.p, 1), cmp('gt', P('even'), 0)), band(cmp('eq', m.p, -1), cmp('gt', P('odd'), 0))))]
class InitialPop(Contract):
    """a single initial state is populated"""
    name = 'statSetupInitialPopulationSpec'; src = 'libcgmf/src/popinit.cpp'; bound = ('k', 'j')
    def make(s, ctx):
        Nuc(ctx, State(ctx, Guard(), ctx.seq))
        return [z3.Real('j0'), z3.Int('p0'), z3.Int('k0'), z3.Real('sf'), OBJ(ctx, 'Transmission', 'tin')]
    def pre(s, ctx, a, st):
        c = GLOB(ctx, 'ctl')
        return Dims(ctx).pre() + [('a single initial state is requested', cmp('eq', st.ld(c, 'init_pop'), SINGLE)), ('nothing is printed', cmp('eq', st.ld(c, 'print_init_pop'), 0)), ('the bin exists', band(cmp('ge', a[2], 0), cmp('lt', a[2], Dims(ctx).NB))), ('the spin is not negative', cmp('ge', a[0], 0))]
    def frame(s, ctx, a):
        n = Nuc(ctx, s.entry(ctx)); p = n.at(0)
        return [Loc(n.st.at(p, 'pop', 0, 0), find_struct(ctx, 'Parity'), 'rows'), Loc(n.st.at(p, 'jmax'), I32)]
    def post(s, ctx, a, old, new, ret):
        n = Nuc(ctx, new); k, j = z3.Int('k'), z3.Int('j'); d = Dims(ctx)
        ok = band(cmp('ge', k, 0), cmp('lt', k, d.NB), cmp('ge', j, 0), cmp('lt', j, d.MJ))
        e, o = n.v(0, 'pop', k, j, 'even'), n.v(0, 'pop', k, j, 'odd')
        at = band(cmp('eq', k, a[2]), cmp('eq', j, toint(a[0])))
        return [('only the requested spin is populated', bimp(band(ok, bnot(at)), band(cmp('eq', e, 0), cmp('eq', o, 0)))),
                ('only the requested parity is populated', bimp(band(ok, at), band(cmp('eq', e, ite(cmp('lt', a[1], 0), 0, 1)), cmp('eq', o, ite(cmp('lt', a[1], 0), 1, 0)))))]
def toint(x): return z3.ToInt(zr(x))
class StoreLevel(Contract):
    """the discrete level from which the decay starts when the excitation energy lies below the continuum"""
    name = 'statStoreLevelExcite'; src = 'libcgmf/src/popinit.cpp'
    def make(s, ctx): return [grid.NUCLEUS(ctx)]
    def pre(s, ctx, a, st):
        nd = st.ld(a[0], 'ndisc')
        return Dims(ctx).pre() + [('there are discrete levels', band(cmp('ge', nd, 1), cmp('le', nd, Dims(ctx).NLEV))), ('nothing is printed', cmp('eq', st.ld(GLOB(ctx, 'ctl'), 'print_init_pop'), 0)), ('no continuum', cmp('eq', st.ld(a[0], 'ncont'), 0))]
    def frame(s, ctx, a): return [Loc(s.entry(ctx).at(a[0], 'lpop', 0), DBL, 'all')]
    def hooks(s, ctx, a):
        def hk(ctx, g, fr, h, L):
            out = []
            for n, v in L.ints(): out.append((n + ' is a level seen', zb(band(cmp('ge', v, 0), bor(cmp('eq', v, 0), cmp('lt', v, L.k))))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        out = [('the level exists', band(cmp('ge', ret, 0), cmp('lt', ret, old.ld(a[0], 'ndisc'))))]
        if s.verifying:
            i = z3.Int('ii'); dist = lambda x: absr(sub(old.ld(a[0], 'max_energy'), old.ld(a[0], 'lev', x, 'energy')))
            out.append(('the cascade starts from the level nearest in energy', bimp(band(cmp('ge', i, 0), cmp('lt', i, old.ld(a[0], 'ndisc'))), cmp('le', dist(ret), dist(i)))))
        return out
def absr(x): x = zr(x); return z3.If(x >= 0, x, -x)

# ------------------------------------------------------------------ the decay of one fragment
class GdrT(Contract):
    name = 'statSetupGdrParameter'; trusted = True
    def frame(s, ctx, a): return []
class AllocT(Contract):
    """allocates the initial population once"""
    name = 'specMCalloc'; trusted = True
    def frame(s, ctx, a): return []
class MainFission(Contract):
    name = 'specMCMainFission'; src = SMC
    def make(s, ctx):
        Nuc(ctx, State(ctx, Guard(), ctx.seq))
        d = Dims(ctx)
        q = ctx.pointee(GLOB(ctx, 'pin'), PTR, d.NB); ctx.pointee(Ptr(q.r, q.path), find_struct(ctx, 'Parity'), d.MJ)
        q = GLOB(ctx, 'spc'); ctx.pointee(Ptr(q.r, (0, 0)), DBL, d.NB)
        return [OBJ(ctx, 'fissionEventType', 'fe')]
    def uses(s):
        import levels
        return [AllocT(), grid.TotalNeutrons(), grid.InitSystem(), levels.Levels(), EnergyBin(), dens.SetupPar(), GdrT(), StoreLevel(), GammaCascade(), InitialPop(), FixedStart(), HistoryLoop(), RecordParticles()]
    def pre(s, ctx, a, st):
        fe = a[0]; Z, A = st.ld(fe, 'Z'), st.ld(fe, 'A')
        c = GLOB(ctx, 'ctl')
        out = Dims(ctx, st).pre() + [('the fragment starts with a spin within the arrays', band(cmp('ge', st.ld(fe, 'spin'), 0), cmp('lt', st.ld(fe, 'spin'), Dims(ctx, st).MJ))),
            ('the fragment is a nucleus', band(cmp('ge', Z, 1), cmp('le', Z, 129), cmp('ge', A, add(Z, 10)), cmp('lt', A, 1000))), ('the excitation energy is not negative', cmp('ge', st.ld(fe, 'U'), 0)), ('the parity is 1 or -1', bor(cmp('eq', st.ld(fe, 'parity'), 1), cmp('eq', st.ld(fe, 'parity'), -1))),
            ('a single initial state is requested', cmp('eq', st.ld(c, 'init_pop'), SINGLE)), ('nothing is printed', cmp('eq', st.ld(c, 'print_init_pop'), 0)), ('KEpost starts at zero', cmp('eq', st.ld(fe, 'KEpost'), 0))]
        for n in range(11): out.append(('mass positive', cmp('gt', mass(Z, sub(A, n)), 0)))
        return out
    def frame(s, ctx, a):
        import api
        return api.fe_frame(ctx, a[0]) + [Globals('MAX_ENERGY_BIN', 'MAX_J', 'MAX_LEVELS', 'ENERGY_BIN', 'CONTINUUM_LOWER_CUT', '@ctl', 'time_coincidence_window', 'firstcalc')]
    def post(s, ctx, a, old, new, ret):
        import api
        fe = a[0]
        out = api.fe_valid(fe, new) + [('%s of the fragment is kept' % m, cmp('eq', new.ld(fe, m), old.ld(fe, m))) for m in api.INIT]
        out += [('initial momentum %d is kept' % i, cmp('eq', new.ld(fe, 'preFragmentMomentum', i), old.ld(fe, 'preFragmentMomentum', i))) for i in range(3)]
        if not s.verifying: return out
        h = Hist(ctx, new); n = Nuc(ctx, new)
        Z, A, U = old.ld(fe, 'Z'), old.ld(fe, 'A'), old.ld(fe, 'U')
        cont = bnot(h.disc(0))
        za0 = lambda m: n.v(h.e(0, 'mp', 'n'), 'za', m)
        l = sub(h.np, 1); q = z3.Int('q'); inq = band(cmp('ge', q, 0), cmp('lt', q, l))
        nz = lambda x: n.v(h.e(x, 'mp', 'n'), 'za', 'A'); zz = lambda x: n.v(h.e(x, 'mp', 'n'), 'za', 'Z')
        q1 = add(q, 1)
        return out + [('the cascade starts from the fragment', band(cmp('eq', za0('Z'), Z), cmp('eq', za0('A'), A))),
                ('a cascade from the continuum starts at the excitation energy of the fragment', bimp(cont, cmp('eq', h.e(0, 'mp', 'e'), U))),
                ('a cascade from the continuum starts with the spin and parity of the fragment', bimp(cont, band(cmp('eq', h.e(0, 'mp', 'j'), toint(old.ld(fe, 'spin'))), cmp('eq', h.e(0, 'mp', 'p'), old.ld(fe, 'parity'))))),
                ('a neutron leads to the isotope with one neutron less', bimp(band(inq, h.isn(q)), band(cmp('eq', nz(q1), sub(nz(q), 1)), cmp('eq', zz(q1), zz(q))))),
                ('a photon or conversion electron does not change the nucleus', bimp(band(inq, bnot(h.isn(q))), cmp('eq', h.e(q1, 'mp', 'n'), h.e(q, 'mp', 'n')))),
                ('a neutron carries the energy difference less the difference of the mass excesses', bimp(band(inq, h.isn(q)), cmp('eq', h.energy(q), sub(sub(h.e(q, 'mp', 'e'), h.e(q1, 'mp', 'e')), grid.bind(Z, A, h.e(q, 'mp', 'n')))))),
                ('a photon or conversion electron carries the energy difference', bimp(band(inq, bnot(h.isn(q))), cmp('eq', h.energy(q), sub(h.e(q, 'mp', 'e'), h.e(q1, 'mp', 'e')))))]
    def ghost(s, ctx, a, g, old, ret):
        import api
        if ctx.dry: return
        if not hasattr(ctx, 'decays'): ctx.decays = []
        ctx.decays.append((g, a[0], {m: old.ld(a[0], m) for m in api.INIT}, [old.ld(a[0], 'preFragmentMomentum', i) for i in range(3)], old.ld(Ptr(ctx.gl('time_coincidence_window', SMC), (0,)))))
