"""Contracts for the continuum energy grid (setup.cpp)"""
from contract import *
SETUP = 'libcgmf/src/setup.cpp'
class Dims:
    """the array dimensions and grid parameters fixed by cgmfEvent::initialization"""
    def __init__(s, ctx, st=None):
        st = st or State(ctx, Guard(), 0)
        G = lambda n: st.ld(GLOB(ctx, n))
        s.NB, s.MJ, s.NLEV, s.DE, s.CUT = G('MAX_ENERGY_BIN'), G('MAX_J'), G('MAX_LEVELS'), G('ENERGY_BIN'), G('CONTINUUM_LOWER_CUT')
    def pre(s):
        return [('the array dimensions have been set', band(cmp('ge', s.NB, 2), cmp('ge', s.MJ, 2), cmp('le', s.MJ, 100), cmp('ge', s.NLEV, 2))), ('the bin width has been set', cmp('gt', s.DE, 0))]

def NUCLEUS(ctx, name='n'):
    p = OBJ(ctx, 'Nucleus', name)
    nucleus_arrays(ctx, p)
    return p
def nucleus_arrays(ctx, p):
    s0 = State(ctx, Guard())
    d = Dims(ctx); NB, NLEV, MJ = d.NB, d.NLEV, d.MJ
    sv, ctx.check_bounds = ctx.check_bounds, False
    for m, t, n in (('lev', find_struct(ctx, 'Level'), NLEV), ('cdt', find_struct(ctx, 'Channel'), 2), ('lpop', DBL, NLEV), ('excitation', DBL, NB), ('binwidth', DBL, NB)):
        ctx.pointee(s0.at(p, m), t, n)
    for m in ('pop', 'density'):
        q = ctx.pointee(s0.at(p, m), PTR, NB)
        ctx.pointee(Ptr(q.r, q.path), find_struct(ctx, 'Parity'), MJ)
    ctx.check_bounds = sv

def grid_frame(ctx, p, st, extra=()):
    out = [Loc(st.at(p, 'ncont'), I32), Loc(st.at(p, 'ntotal'), I32), Loc(st.at(p, 'de'), DBL)]
    for m in ('excitation', 'binwidth', 'lpop'): out.append(Loc(st.at(p, m, 0), DBL, 'all'))
    out.append(Loc(st.at(p, 'pop', 0, 0), find_struct(ctx, 'Parity'), 'rows'))
    return out

def grid_facts(L, st, p, emax, elmax):
    """what a continuum grid up to emax above discrete levels ending at elmax looks like"""
    V = lambda *x: st.ld(p, *x)
    d = Dims(L); NB, DE = d.NB, d.DE
    nc, nt = V('ncont'), V('ntotal')
    k = z3.Int('k'); E = lambda i: V('excitation', i)
    ink = band(cmp('ge', k, 0), cmp('lt', k, nc))
    return [('the numbers of bins fit the arrays', band(cmp('ge', nt, 1), cmp('le', nt, NB), cmp('ge', nc, 0), cmp('lt', nc, nt))),
            ('the top bin is the excitation energy', bimp(cmp('gt', nc, 0), cmp('eq', E(0), emax))),
            ('the top bin does not exceed the excitation energy', bimp(cmp('ge', emax, 0), cmp('le', E(0), emax))),
            ('the bins are equidistant from the top down', bimp(ink, cmp('eq', E(k), sub(emax, mul(k, DE))))),
            ('no continuum bin lies below the last discrete level', bimp(ink, cmp('ge', E(k), elmax))),
            ('the bin below the continuum lies below its bins', bimp(ink, cmp('lt', E(nc), E(k)))),
            ('no continuum below the first bin', bimp(cmp('lt', emax, mul(DE, Fraction(1, 2))), cmp('eq', nc, 0))),
            ('a continuum needs energy above the last discrete level', bimp(cmp('gt', nc, 0), cmp('gt', emax, elmax))),
            ('the bin width is constant', bimp(band(cmp('ge', k, 0), cmp('lt', k, NB)), cmp('eq', V('binwidth', k), DE)))]

class EnergyBin(Contract):
    name = 'statSetupEnergyBin'; src = SETUP; bound = ('k', 'j')
    def make(s, ctx): return [NUCLEUS(ctx)]
    def pre(s, ctx, a, st):
        nd = st.ld(a[0], 'ndisc'); e0 = st.ld(a[0], 'lev', s.top(st, a[0]), 'energy')
        d = Dims(ctx)
        return d.pre() + [('there are discrete levels', band(cmp('ge', nd, 0), cmp('le', nd, d.NLEV))), ('level energies are not negative', cmp('ge', e0, 0))]
    def top(s, st, p):
        nd = st.ld(p, 'ndisc'); return ite(cmp('eq', nd, 0), 0, sub(nd, 1))
    def frame(s, ctx, a): return grid_frame(ctx, a[0], s.entry(ctx))
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        emax = old.ld(a[0], 'max_energy'); DE = Dims(ctx).DE
        def hk(ctx, g, fr, h, L):
            out = []
            st = State(ctx, g); k = zi(L.k)
            out.append(('bins searched lie below', zb(cmp('le', add(mul(sub(L.k, Fraction(1, 2)), DE), 0), emax)) if True else True))
            elmax = old.ld(a[0], 'lev', s.top(old, a[0]), 'energy')
            kk = z3.Int('k')
            for n, v in L.reals(): out.append((n + ' is the upper edge of the bin', zb(cmp('eq', v, mul(add(L.k, Fraction(1, 2)), DE)))))
            out.append(('bins searched lie above', zb(bimp(band(cmp('ge', kk, 0), cmp('le', kk, L.k)), cmp('ge', st.ld(a[0], 'excitation', kk), elmax)))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        p = a[0]
        k, j = z3.Int('k'), z3.Int('j')
        d = Dims(ctx); NB, NLEV, MJ = d.NB, d.NLEV, d.MJ
        V = lambda *x: new.ld(p, *x)
        elmax = old.ld(p, 'lev', s.top(old, p), 'energy')
        out = grid_facts(ctx, new, p, old.ld(p, 'max_energy'), elmax)
        inkj = band(cmp('ge', k, 0), cmp('lt', k, NB), cmp('ge', j, 0), cmp('lt', j, MJ))
        out += [('the continuum is empty', bimp(inkj, band(cmp('eq', V('pop', k, j, 'even'), 0), cmp('eq', V('pop', k, j, 'odd'), 0)))),
                ('the levels are empty', bimp(band(cmp('ge', k, 0), cmp('lt', k, NLEV)), cmp('eq', V('lpop', k), 0))),
                ('the number of bins is returned', cmp('eq', ret, V('ncont')))]
        return out

# ------------------------------------------------------------------ the decay chain
from kin import ME, MassExcess
EN = Fraction(8071431, 1000000)           # neutron mass excess (MeV)
def left(Z, A, E, n):
    """energy left after n neutrons"""
    za = lambda k: zi(add(mul(Z, 1000), sub(A, k)))
    return sub(E, sub(add(ME(za(n)), mul(zr(n), EN)), ME(za(0))))
class TotalNeutrons(Contract):
    name = 'statTotalNeutrons'; src = SETUP
    bound = ('i',)
    def make(s, ctx): return [z3.Real('emax'), OBJ(ctx, 'ZAnumber', 'cnZA')]
    def uses(s): return [MassExcess()]
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        Z, A = old.ld(a[1], 'Z'), old.ld(a[1], 'A')
        i = z3.Int('i')
        def hk(ctx, g, fr, h, L):
            out = []
            for n, v in L.reals(): out.append((n + ' is what is left', zb(cmp('eq', v, left(Z, A, a[0], L.k)))))
            out.append(('enough energy so far', zb(bimp(band(cmp('ge', i, 1), cmp('le', i, L.k)), cmp('gt', left(Z, A, a[0], i), 0)))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        Z, A = old.ld(a[1], 'Z'), old.ld(a[1], 'A'); i = z3.Int('i')
        return [('between 0 and 9 neutrons', band(cmp('ge', ret, 0), cmp('le', ret, 9))),
                ('energy is left after every neutron counted', bimp(band(cmp('ge', i, 1), cmp('le', i, ret)), cmp('gt', left(Z, A, a[0], i), 0))),
                ('no energy is left for a further neutron', bimp(cmp('lt', ret, 9), cmp('le', left(Z, A, a[0], add(ret, 1)), 0)))]

class InitSystem(Contract):
    """the chain of nuclei reached by neutron emission"""
    name = 'statSetupInitSystem'; src = SETUP
    bound = ('cc',); opts = {'inst': ('cc',)}
    def make(s, ctx):
        s.nuc(ctx)
        return [z3.Int('nemit'), OBJ(ctx, 'Pdata', 'pdt', 2)]
    def nuc(s, ctx):
        import cascade
        return cascade.Nuc(ctx, State(ctx, Guard(), ctx.seq))
    def uses(s): return [MassExcess()]
    def pre(s, ctx, a, st): return [('between 0 and 9 neutrons', band(cmp('ge', a[0], 0), cmp('le', a[0], 9)))]
    def frame(s, ctx, a):
        import cascade
        n = cascade.Nuc(ctx, s.entry(ctx)); p = n.at(0); st = n.st
        out = [Loc(a[1], find_struct(ctx, 'Pdata'), 2), Loc(st.at(p, 'cdt', 0), find_struct(ctx, 'Channel'), 'any'), Loc(st.at(p, 'za'), find_struct(ctx, 'ZAnumber'), 'any')]
        return out + [Loc(st.at(p, m), DBL, 'any') for m in ('mass_excess', 'mass', 'max_energy')]
    def hooks(s, ctx, a):
        import cascade
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, h, L):
            n = cascade.Nuc(ctx, State(ctx, g)); o = cascade.Nuc(ctx, old)
            c = z3.Int('cc'); out = []
            inc = lambda lo, d: band(cmp('ge', c, lo), cmp('lt', c, add(L.k, d)))
            Z, A = o.v(0, 'za', 'Z'), o.v(0, 'za', 'A')
            for d in (0, 1, 2):
                out.append(('chain %d' % d, zb(bimp(inc(0, d), band(cmp('eq', n.v(c, 'za', 'Z'), Z), cmp('eq', n.v(c, 'za', 'A'), sub(A, c)))))))
            nx, on, B_ = n.v(c, 'cdt', 1, 'next'), cmp('ne', n.v(c, 'cdt', 1, 'status'), 0), n.v(c, 'cdt', 1, 'binding_energy')
            for d in (0, 1):
                out.append(('binding %d' % d, zb(bimp(inc(0, d), cmp('eq', B_, bind(Z, A, c))))))
                out.append(('open %d' % d, zb(bimp(band(inc(0, d), on), cmp('eq', nx, add(c, 1))))))
            out.append(('closed', zb(bimp(band(cmp('ge', c, L.k), cmp('le', c, a[0])), bnot(on)))))
            out.append(('closed all', zb(bimp(inc(0, 0), bnot(on)))))
            out.append(('energy', zb(cmp('eq', n.v(0, 'max_energy'), o.v(0, 'max_energy')))))
            for d in (0, 1):
                out.append(('opened %d' % d, zb(bimp(inc(0, d), iff(on, cmp('lt', B_, n.v(c, 'max_energy')))))))
                out.append(('energy left %d' % d, zb(bimp(band(inc(0, d), on), cmp('eq', n.v(add(c, 1), 'max_energy'), sub(n.v(c, 'max_energy'), B_))))))
            out.append(('mass excess', zb(bimp(inc(0, 0), cmp('eq', n.v(c, 'mass_excess'), ME(zi(add(mul(Z, 1000), sub(A, c)))))))))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        import cascade
        o, n = cascade.Nuc(ctx, old), cascade.Nuc(ctx, new); c = z3.Int('cc')
        Z, A = o.v(0, 'za', 'Z'), o.v(0, 'za', 'A')
        inc = band(cmp('ge', c, 0), cmp('le', c, a[0])); onc = cmp('ne', n.v(c, 'cdt', 1, 'status'), 0)
        return [('nucleus i of the chain has lost i neutrons', bimp(inc, band(cmp('eq', n.v(c, 'za', 'Z'), Z), cmp('eq', n.v(c, 'za', 'A'), sub(A, c))))),
                ('the binding energy is the difference of the mass excesses', bimp(band(inc, cmp('lt', c, a[0])), cmp('eq', n.v(c, 'cdt', 1, 'binding_energy'), bind(Z, A, c)))),
                ('the energy of the first nucleus is kept', cmp('eq', n.v(0, 'max_energy'), o.v(0, 'max_energy'))),
                ('the neutron channel is open exactly if the energy exceeds the binding energy', bimp(band(inc, cmp('lt', c, a[0])), iff(onc, cmp('lt', n.v(c, 'cdt', 1, 'binding_energy'), n.v(c, 'max_energy'))))),
                ('the next nucleus has the energy less the binding energy', bimp(band(inc, onc), cmp('eq', n.v(add(c, 1), 'max_energy'), sub(n.v(c, 'max_energy'), n.v(c, 'cdt', 1, 'binding_energy'))))),
                ('an open neutron channel leads to the next nucleus of the chain', bimp(band(inc, onc), band(cmp('eq', n.v(c, 'cdt', 1, 'next'), add(c, 1)), cmp('lt', c, a[0]))))]
def bind(Z, A, c):
    za = lambda k: zi(add(mul(Z, 1000), sub(A, k)))
    return sub(add(ME(za(add(c, 1))), EN), ME(za(c)))

def iff(a, b): return band(bimp(a, b), bimp(b, a))
