"""Contracts for the command line driver (utils/cgmf/cgmf.cpp)"""
from contract import *
import api
DRV = 'utils/cgmf/cgmf.cpp'
G = lambda ctx, n: Ptr(ctx.gl(n, DRV), (0,))
def S(name): return z3.Function('sum_' + name, I, R)     # sum_x(k): sum of the first k elements of x

INTS = dict(sumALF=('eventLF', 'A'), sumZLF=('eventLF', 'Z'), sumAHF=('eventHF', 'A'), sumZHF=('eventHF', 'Z'), sumNuLF=('eventLF', 'nu'), sumNuHF=('eventHF', 'nu'), sumNuPre=('preFissionNeutronNu',), sumNugLF=('eventLF', 'nug'), sumNugHF=('eventHF', 'nug'))
REALS_ = dict(sumKELF=('eventLF', 'KE'), sumKEHF=('eventHF', 'KE'), sumXELF=('eventLF', 'U'), sumXEHF=('eventHF', 'U'), sumJLF=('eventLF', 'spin'), sumJHF=('eventHF', 'spin'))
TOT = dict(sumTKE=('sumKELF', 'sumKEHF'), sumTXE=('sumXELF', 'sumXEHF'), sumNuTot=('sumNuLF', 'sumNuHF', 'sumNuPre'), sumEcm=('sumEcmLF', 'sumEcmHF', 'sumEnPre'), sumElab=('sumElabLF', 'sumElabHF', 'sumEnPre'), sumNugTot=('sumNugLF', 'sumNugHF'), sumEg=('sumEgLF', 'sumEgHF'))
PART = dict(sumEcmLF=('cmNeutronEnergies', 'L', 'nu'), sumEcmHF=('cmNeutronEnergies', 'H', 'nu'), sumElabLF=('neutronEnergies', 'L', 'nu'), sumElabHF=('neutronEnergies', 'H', 'nu'), sumEnPre=('preFissionNeutronEnergies', 'P', None), sumEgLF=('photonEnergies', 'L', 'nug'), sumEgHF=('photonEnergies', 'H', 'nug'))
ARR_ = ['cmNeutronEnergies', 'neutronEnergies', 'preFissionNeutronEnergies', 'photonEnergies']
SUMS_ = list(INTS) + list(REALS_) + list(TOT) + list(PART) + ['sumJ']
class RecordEvent(Contract):
    """the running sums grow by the values of the event"""
    name = 'recordEvent'; src = DRV
    def make(s, ctx):
        s.ev = api.typed(ctx, api.event(ctx))
        return [s.ev]
    def pre(s, ctx, a, st):
        E = lambda *p: st.ld(a[0], *p)
        return [('the multiplicities are those of the fragments', band(cmp('eq', E('neutronNu'), add(E('eventLF', 'nu'), E('eventHF', 'nu'))), cmp('eq', E('photonNu'), add(E('eventLF', 'nug'), E('eventHF', 'nug'))),
                 *[cmp('ge', E(x, y), 0) for x in ('eventLF', 'eventHF') for y in ('nu', 'nug')], cmp('ge', E('preFissionNeutronNu'), 0)))]
    def before(s, ctx, a):
        st = State(ctx, Guard(), ctx.seq)
        for m in ARR_:
            F = S(m)
            def rule(t, m=m, F=F):
                x = z3.simplify(t.arg(0) - 1)
                return [z3.Implies(t.arg(0) <= 0, t == 0), z3.Implies(t.arg(0) > 0, t == F(x) + zr(st.ld(a[0], m, x)))]
            ctx.rules['sum_' + m] = rule
    def frame(s, ctx, a):
        ints = list(INTS) + ['sumNuTot', 'sumNugTot']
        return [Loc(G(ctx, x), I32 if x in ints else DBL) for x in SUMS_] + [Statics()]
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        E = lambda *p: old.ld(a[0], *p)
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g); out = []
            for x, (m, side, nu) in PART.items():
                now, was, F = zr(st.ld(G(ctx, x))), zr(old.ld(G(ctx, x))), S(m)
                nl = zi(E('eventLF', nu)) if nu else None
                k = zi(L.k)
                for o in (z3.IntVal(0), nl) if nl is not None else (z3.IntVal(0),):
                    out.append((x, now == was + F(k + o) - F(o)))
            return out
        return [hk]
    def post(s, ctx, a, old, new, ret):
        E = lambda *p: old.ld(a[0], *p); V = lambda x: new.ld(G(ctx, x)); W = lambda x: old.ld(G(ctx, x))
        out = []
        for x, p in list(INTS.items()) + list(REALS_.items()): out.append(('%s grows by the value of the event' % x, cmp('eq', V(x), add(W(x), E(*p)))))
        for x, ps in TOT.items():
            t = V(ps[0])
            for y in ps[1:]: t = add(t, V(y))
            out.append(('%s is the total of its parts' % x, cmp('eq', V(x), t)))
        out.append(('sumJ is the mean of its parts', cmp('eq', mul(V('sumJ'), 2), add(V('sumJLF'), V('sumJHF')))))
        for x, (m, side, nu) in PART.items():
            F = S(m)
            if side == 'P': d = F(zi(E('preFissionNeutronNu')))
            elif side == 'L': d = F(zi(E('eventLF', nu)))
            else: d = F(zi(add(E('eventLF', nu), E('eventHF', nu)))) - F(zi(E('eventLF', nu)))
            out.append(('%s grows by the energies of its particles' % x, zr(V(x)) == zr(W(x)) + d))
        return out

# ------------------------------------------------------------------ the history file
from models import Channel, kind_of
D, F1, F3, GG = kind_of('d'), kind_of('f', 1), kind_of('f', 3), kind_of('g')
def zint(x): return zi(x) if not isinstance(x, int) else z3.IntVal(x)
def layout(E, q, delayed):
    """the documented record of one event: yields (text, position, value, kind, condition)"""
    pos = z3.IntVal(0); zero = Fraction(0)
    nl, nh, gl, gh, npre = (zi(E(*p)) for p in (('eventLF', 'nu'), ('eventHF', 'nu'), ('eventLF', 'nug'), ('eventHF', 'nug'), ('preFissionNeutronNu',)))
    for side, ev, n, off, gm, goff in (('light', 'eventLF', nl, z3.IntVal(0), gl, z3.IntVal(0)), ('heavy', 'eventHF', nh, nl, gh, gl)):
        head = [(x, E(ev, x), k) for x, k in (('A', D), ('Z', D), ('U', F3), ('spin', F1), ('parity', D), ('KE', F3), ('KEpost', F3), ('nu', D), ('nug', D))]
        head.append(('number of pre-fission neutrons' if side == 'heavy' else 'the number 0', npre if side == 'heavy' else zero, D))
        head.append(('end of line', zero, 0))
        for w in ('pre', 'post'):
            for i in range(3): head.append(('%s momentum %s' % (w, 'xyz'[i]), E(ev, w + 'FragmentMomentum', i), F3))
        head.append(('end of line', zero, 0))
        for i, (t, v, k) in enumerate(head): yield '%s fragment line: %s' % (side, t), pos + i, v, k, True
        pos = pos + len(head)
        for frame, pre_ in (('c.m. neutrons', 'cmNeutron'), ('laboratory neutrons', 'neutron')):
            for c, m in enumerate([pre_ + 'Dircosu', pre_ + 'Dircosv', pre_ + 'Dircosw', pre_ + 'Energies']):
                yield '%s of the %s fragment: %s' % (frame, side, m), pos + 4 * q + c, E(m, off + q), F3, z3.And(q >= 0, q < n)
            yield '%s of the %s fragment: end of line' % (frame, side), pos + 4 * n, zero, 0, n > 0
            pos = pos + z3.If(n > 0, 4 * n + 1, z3.IntVal(0))
        ms = ['photonDircosu', 'photonDircosv', 'photonDircosw', 'photonEnergies'] + (['photonAges'] if delayed else [])
        for c, m in enumerate(ms):
            yield 'photons of the %s fragment: %s' % (side, m), pos + len(ms) * q + c, E(m, goff + q), F3 if c < 4 else GG, z3.And(q >= 0, q < gm)
        yield 'photons of the %s fragment: end of line' % side, pos + len(ms) * gm, zero, 0, gm > 0
        pos = pos + z3.If(gm > 0, len(ms) * gm + 1, z3.IntVal(0))
    for c, m in enumerate(['preFissionNeutronDircosu', 'preFissionNeutronDircosv', 'preFissionNeutronDircosw', 'preFissionNeutronEnergies']):
        yield 'pre-fission neutrons: %s' % m, pos + 4 * q + c, E(m, q), F3, z3.And(q >= 0, q < npre)
    yield 'pre-fission neutrons: end of line', pos + 4 * npre, zero, 0, npre > 0
    pos = pos + z3.If(npre > 0, 4 * npre + 1, z3.IntVal(0))
    yield None, pos, None, None, None

class PrintEvent(Contract):
    """the record of an event in the history file is the documented one, field by field"""
    name = 'printEventToFile'; src = DRV
    delayed = False
    def make(s, ctx):
        s.fp = Ptr(Region('fp', None, 1, 'param'), (0,))
        s.ch = Channel(s.fp); ctx.channels = [s.ch]
        return [s.fp, api.typed(ctx, api.event(ctx)), z3.Real('timeCoincidenceWindow')]
    def pre(s, ctx, a, st):
        return RecordEvent.pre(s, ctx, a[1:2], st) + [('the time window is %s' % ('infinite' if s.delayed else 'not negative'), cmp('lt', a[2], 0) if s.delayed else cmp('ge', a[2], 0)),
               ('nothing is printed on this line yet', cmp('eq', st.ld(s.ch.glue), 0))]
    def case(s, ctx, a): return cmp('lt', a[2], Fraction(0)) if s.delayed else bnot(cmp('lt', a[2], Fraction(0)))
    def frame(s, ctx, a): return []
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g)
            return [('nothing is glued', cmp('eq', st.ld(s.ch.glue), 0))]
        return [hk]
    def post(s, ctx, a, old, new, ret):
        E = lambda *p: old.ld(a[1], *p)
        q = z3.Int('q'); base = zi(old.ld(s.ch.n)); out = []
        for t, pos, v, k, c in layout(E, q, s.delayed):
            if t is None: out.append(('nothing else is printed', cmp('eq', new.ld(s.ch.n), base + pos))); break
            at = lambda p: new.ld(Ptr(p.r, (base + pos,)))
            out.append((t, bimp(c, band(cmp('eq', at(s.ch.val), v), cmp('eq', at(s.ch.kind), k)))))
        return out
class PrintEventDelayed(PrintEvent):
    delayed = True

# ------------------------------------------------------------------ the summary
class PrintSummary(Contract):
    """the averages printed are the sums divided by the number of events (or of particles)"""
    name = 'printSummaryEvents'; src = DRV
    def make(s, ctx):
        s.ch = Channel(None); ctx.channels = [s.ch]
        return [api.typed(ctx, api.event(ctx))]
    def pre(s, ctx, a, st):
        return [('at least one event was generated', cmp('ge', st.ld(G(ctx, 'nevents')), 1)), ('the target is a ZAID', cmp('gt', st.ld(a[0], 'ZAIDt'), 0))] + [('%s is a count' % x, cmp('ge', st.ld(G(ctx, x)), 0)) for x in ('sumNuLF', 'sumNuHF', 'sumNuPre', 'sumNuTot', 'sumNugLF', 'sumNugHF', 'sumNugTot')]
    def frame(s, ctx, a): return []
    def post(s, ctx, a, old, new, ret):
        V = lambda x: old.ld(G(ctx, x))
        n = V('nevents')
        za = old.ld(a[0], 'ZAIDt')
        seq = [('average of %s per event' % x, x, ('n',)) for x in ('sumZLF', 'sumALF', 'sumZHF', 'sumAHF', 'sumKELF', 'sumKEHF', 'sumTKE', 'sumXELF', 'sumXEHF', 'sumTXE', 'sumJLF', 'sumJHF', 'sumJ', 'sumNuLF', 'sumNuHF', 'sumNuPre', 'sumNuTot')]
        seq += [('average of %s per neutron' % x, x, y) for x, y in (('sumEcmLF', 'sumNuLF'), ('sumEcmHF', 'sumNuHF'), ('sumEnPre', 'sumNuPre'), ('sumEcm', 'sumNuTot'), ('sumElabLF', 'sumNuLF'), ('sumElabHF', 'sumNuHF'), ('sumEnPre', 'sumNuPre'), ('sumElab', 'sumNuTot'))]
        seq += [('average of %s per event' % x, x, ('n',)) for x in ('sumNugLF', 'sumNugHF', 'sumNugTot')]
        seq += [('average of %s per photon' % x, x, y) for x, y in (('sumEgLF', 'sumNugLF'), ('sumEgHF', 'sumNugHF'), ('sumEg', 'sumNugTot'))]
        # the numbers in order of output, line ends dropped; if the output is arranged in another way the replay decides
        ws, vs = (ctx.log.get((c.r, ('*',)), []) for c in (s.ch.kind, s.ch.val))
        out = []
        toks = [(w, v) for w, v in zip(ws, vs) if not (is_c(w.val) and w.val == 0)]
        head = [t for t in toks if t[0].guard.l]       # the reaction line depends on the kind of reaction
        rest = [t for t in toks if not t[0].guard.l]
        if len(rest) != len(seq) or len(head) != 5 or any(w.loop for w in ws): raise IRError('the arrangement of the summary is not recognised')
        for (w, v), (nm, x, d) in zip(rest, seq):
            num = old.ld(G(ctx, x))
            if isinstance(d, tuple): den = n
            else:
                c = old.ld(G(ctx, d)); den = ite(cmp('ge', c, 1), c, 1)
            out.append((nm, cmp('eq', v.val, fdiv(num, den))))
            out.append((nm + ' is printed with two decimals', cmp('eq', w.val, kind_of('f', 2))))
        Zt = z3.ToInt(zr(za) / 1000); At = zi(za) - 1000 * Zt
        for (w, v), x in zip(sorted(head, key=lambda t: len([1 for h in head if h[0].guard.expr().eq(t[0].guard.expr())])), (Zt, At, Zt, At, old.ld(a[0], 'incidentEnergy'))):
            out.append(('the reaction is named', bimp(w.guard.expr(), cmp('eq', v.val, zr(x)))))
        return out

# ------------------------------------------------------------------ command line
ATOI, ATOF = z3.Function('cmd_int', I, I), z3.Function('cmd_real', I, R)
def ghost(ctx, name, ty=I32, n=1):
    d = ctx.__dict__.setdefault('ghosts', {})
    if name not in d:
        r = Region('$' + name, ty, n, 'param'); r.ghost = True; d[name] = r
    return Ptr(d[name], (0,))
OPTS_ = dict(e=('incidentEnergy', DBL, ATOF), n=('nevents', I32, ATOI), i=('ZAIDt', I32, ATOI), t=('timeCoincidenceWindow', DBL, ATOF), s=('startingEvent', I32, ATOI))
class GetoptT(Contract):
    """getopt returns -1 or an option letter; the text of its argument gets a number (> 0), remembered as the last one for that letter"""
    name = 'getopt'; trusted = True
    def at_call(s, ctx, args, g, ins):
        if ctx.cstring(args[2]) is None: raise IRError('option string is not a literal')
        p = fresh_int('opt'); tok = fresh_int('token')
        ctx.assume(z3.And(p >= -1, p < 128, tok > 0))
        ctx.store(ghost(ctx, 'argument'), tok, I32, g)
        for c in OPTS_:
            gp = ghost(ctx, 'given_' + c)
            if c + ':' in ctx.cstring(args[2]): ctx.store(gp, ite(cmp('eq', p, ord(c)), tok, ctx.load(gp, I32, g)), I32, g)
        return p, g
class AtoT(Contract):
    trusted = True
    def __init__(s, n): s.name = n
    def at_call(s, ctx, args, g, ins):
        return (ATOI if s.name == 'atoi' else ATOF)(zi(ctx.load(ghost(ctx, 'argument'), I32, g))), g
class ReadUserInput(Contract):
    """every option sets its own parameter and no other; a time window that is neither -1 nor positive is refused"""
    name = 'readUserInput'; src = DRV
    def make(s, ctx): return [z3.Int('argc'), Opaque('argv'), z3.Int('ip')]
    def uses(s): return [GetoptT(), AtoT('atoi'), AtoT('atof'), api.T_('setdatapath')]
    def pre(s, ctx, a, st):
        return [('no option was read yet', band(*[cmp('eq', st.ld(ghost(ctx, 'given_' + c)), 0) for c in OPTS_]))] if s.verifying else []
    def frame(s, ctx, a):
        return [Loc(G(ctx, v), t) for v, t, _ in OPTS_.values()] + [Strings('path', 'outfilename')]
    def want(s, ctx, c, old, new):
        v, t, f = OPTS_[c]
        tok = zi(new.ld(ghost(ctx, 'given_' + c)))
        return v, cmp('eq', new.ld(G(ctx, v)), ite(tok == 0, old.ld(G(ctx, v)), f(tok)))
    def hooks(s, ctx, a):
        old = State(ctx, Guard(), ctx.seq)
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g)
            return [('option -' + c, s.want(ctx, c, old, st)[1]) for c in OPTS_] + [('given', zi(st.ld(ghost(ctx, 'given_' + c))) >= 0) for c in OPTS_]
        return [hk]
    def post(s, ctx, a, old, new, ret):
        t = new.ld(G(ctx, 'timeCoincidenceWindow'))
        out = [('the time window is -1 or not negative', bor(cmp('ge', t, 0), cmp('eq', t, -1)))]
        if s.verifying: out += [('%s is the argument of -%s, or unchanged' % (s.want(ctx, c, old, new)[0], c), s.want(ctx, c, old, new)[1]) for c in OPTS_]
        return out
    def exits(s, ctx, a, old):
        st = State(ctx, old.g)
        t = st.ld(G(ctx, 'timeCoincidenceWindow'))
        return [('a valid time window is not refused', bnot(bor(cmp('ge', t, 0), cmp('eq', t, -1))))]
class Strings(Globals):
    def __init__(s, *names): s.names = names; s.p = s.ty = s.n = None
    def covers(s, r): return any(r.name.lstrip('@') == x or r.name.startswith('@_Z%d%s' % (len(x), x)) for x in s.names)

# ------------------------------------------------------------------ the event loop
class Rec(Contract):
    """an external effect, described on the ghost state"""
    trusted = True
    def __init__(s, n, f, np=None): s.name, s.f, s.np = n, f, np
    def at_call(s, ctx, args, g, ins):
        r = s.f(ctx, args, g, ins)
        return r, g
def gget(ctx, n, g): return ctx.load(ghost(ctx, n), I32, g)
def gset(ctx, n, v, g): ctx.store(ghost(ctx, n), v, I32, g)
class Main(Contract):
    """event i of a run starting at s is generated from seed s+i, whatever came before, and is recorded and printed once"""
    name = 'main'; src = DRV
    def make(s, ctx): return [z3.Int('argc'), Opaque('argv')]
    def pre(s, ctx, a, st): return [('nothing is generated yet', band(*[cmp('eq', st.ld(ghost(ctx, x)), 0) for x in ('events', 'recorded', 'printed_events', 'yields_made', 'summaries')]))]
    def frame(s, ctx, a): return None
    def uses(s):
        def seed(ctx, a, g, ins): gset(ctx, 'seed', a[1], g)
        def active(ctx, a, g, ins): gset(ctx, 'active', gget(ctx, 'seed', g), g)
        def event(ctx, a, g, ins):
            if len(a) < 5: return
            n = gget(ctx, 'events', g); L = lambda x, t: ctx.load(G(ctx, x), t, g)
            ctx.oblige('event k of a run is generated from seed startingEvent + k', cmp('eq', gget(ctx, 'active', g), add(n, L('startingEvent', I32))), g, 'pre')
            ctx.oblige('the event is generated for the requested reaction and time window', band(cmp('eq', a[1], L('ZAIDt', I32)), cmp('eq', a[2], L('incidentEnergy', DBL)), cmp('eq', a[3], 0), cmp('eq', a[4], L('timeCoincidenceWindow', DBL))), g, 'pre')
            ctx.oblige('the previous event was recorded and printed', band(cmp('eq', gget(ctx, 'recorded', g), n), cmp('eq', gget(ctx, 'printed_events', g), n)), g, 'pre')
            gset(ctx, 'events', add(n, 1), g); gset(ctx, 'active', fresh_int('state'), g)      # generating an event advances the generator
        def rec(ctx, a, g, ins):
            gset(ctx, 'recorded', add(gget(ctx, 'recorded', g), 1), g)
            ctx.oblige('the event recorded is the last one generated', cmp('eq', gget(ctx, 'recorded', g), gget(ctx, 'events', g)), g, 'pre')
        def prt(ctx, a, g, ins):
            gset(ctx, 'printed_events', add(gget(ctx, 'printed_events', g), 1), g)
            ctx.oblige('the event printed is the last one generated', cmp('eq', gget(ctx, 'printed_events', g), gget(ctx, 'events', g)), g, 'pre')
            ctx.oblige('the event is printed for the requested time window', cmp('eq', a[2], ctx.load(G(ctx, 'timeCoincidenceWindow'), DBL, g)), g, 'pre')
        def yld(ctx, a, g, ins):
            if len(a) < 5: return
            L = lambda x, t: ctx.load(G(ctx, x), t, g)
            ctx.oblige('yields are generated from seed startingEvent', cmp('eq', gget(ctx, 'active', g), L('startingEvent', I32)), g, 'pre')
            ctx.oblige('yields are generated for the requested reaction, as many as requested', band(cmp('eq', a[1], L('ZAIDt', I32)), cmp('eq', a[2], L('incidentEnergy', DBL)), cmp('eq', add(a[3], L('nevents', I32)), 0)), g, 'pre')
            gset(ctx, 'yields_made', add(gget(ctx, 'yields_made', g), 1), g)
        def summ(ctx, a, g, ins):
            gset(ctx, 'summaries', add(gget(ctx, 'summaries', g), 1), g)
            ctx.oblige('the summary covers all events', cmp('eq', gget(ctx, 'recorded', g), ctx.load(G(ctx, 'nevents'), I32, g)), g, 'pre')
        nop = lambda ctx, a, g, ins: None
        return [ReadUserInput(), Rec('UniformRNG::UniformRNG', nop), Rec('UniformRNG::set_seed', seed), Rec('set_rng', active), Rec('cgmfEvent::cgmfEvent', event), Rec('cgmfYields::cgmfYields', yld), Rec('cgmfEvent::~cgmfEvent', nop), Rec('recordEvent', rec), Rec('printEventToFile', prt), Rec('printSummaryEvents', summ), Rec('cgmf_cleanup', nop)]
    def hooks(s, ctx, a):
        def hk(ctx, g, fr, hd, L):
            st = State(ctx, g)
            e = st.ld(ghost(ctx, 'events'))
            return [('one event per turn', cmp('eq', e, L.k)), ('recorded', cmp('eq', st.ld(ghost(ctx, 'recorded')), e)), ('printed', cmp('eq', st.ld(ghost(ctx, 'printed_events')), e))]
        return [hk]
    def post(s, ctx, a, old, new, ret):
        n = new.ld(G(ctx, 'nevents')); c = lambda x: new.ld(ghost(ctx, x))
        return [('as many events as requested are generated, recorded and printed', bimp(cmp('ge', n, 0), band(cmp('eq', c('events'), n), cmp('eq', c('recorded'), n), cmp('eq', c('printed_events'), n)))),
                ('a negative number of events makes one set of yields and no event', bimp(cmp('lt', n, 0), band(cmp('eq', c('events'), 0), cmp('eq', c('yields_made'), 1)))),
                ('at most one summary is printed', cmp('le', c('summaries'), 1))]
